"""C21: undistorted images show the same scene geometry."""
import os

import numpy as np

import gen
import scenes

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["undistorted shots judged", "panorama views judged", "pixels compared", "labels compared", "pixels outside the original", "features compared", "points projected",
            "images scaled down", "images turned"]
RULE = ("one case = one dataset (all kinds of cameras, real images, masks and segmentations made from a formula) undistorted by the action, and every result compared with "
        "the formula at independently mapped coordinates; non-trivial = at least one image")
ASSUMPTIONS = ["models which undistortion does not support (simple_radial, radial, dual, fisheye624) are left out with a warning, as the code documents",
               "names of the side views of a panorama are not judged"]
SUPPORTED = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "spherical"]
OTHER = ["simple_radial", "radial", "dual", "fisheye624"]


class Picture:
    """Image, mask and labels given by formulas."""

    def __init__(self, rng, w, h, channels, deep):
        self.w, self.h, self.deep = w, h, deep
        self.channels = channels
        n = channels or 1
        self.a = rng.integers(1, 4, n)
        self.b = rng.integers(1, 4, n)
        self.p = rng.uniform(0, 2 * np.pi, n)
        self.q = rng.uniform(0, 2 * np.pi, n)
        self.scale = 200.0 if deep else 1.0
        y, x = np.mgrid[:h, :w]
        im = np.stack([self.at(x, y, k) for k in range(n)], -1)
        self.pixels = np.rint(im if channels else im[..., 0]).astype(np.uint16 if deep else np.uint8)
        blocks = rng.integers(0, 6, (h // 7 + 1, w // 7 + 1)).astype(np.uint8)
        self.labels = np.kron(blocks, np.ones((7, 7), np.uint8))[:h, :w].copy()
        self.mask = (np.kron(rng.random((h // 9 + 1, w // 9 + 1)) < 0.7, np.ones((9, 9)))[:h, :w] * 255).astype(np.uint8)

    def at(self, x, y, k):
        return self.scale * (128 + 50 * np.sin(2 * np.pi * self.a[k] * (x + 0.5) / self.w + self.p[k]) + 50 * np.sin(2 * np.pi * self.b[k] * (y + 0.5) / self.h + self.q[k]))


def write(path, im):
    import cv2

    os.makedirs(os.path.dirname(path), exist_ok=True)
    if im.ndim == 3:
        im = im[..., [2, 1, 0] + ([3] if im.shape[2] == 4 else [])]
    assert cv2.imwrite(path, np.ascontiguousarray(im))


def read(path):
    import cv2

    im = cv2.imread(path, cv2.IMREAD_UNCHANGED)
    if im is not None and im.ndim == 3:
        im = im[..., [2, 1, 0] + ([3] if im.shape[2] == 4 else [])]
    return im


def upright(im, o):
    """The picture as shown by programs which respect the orientation."""
    im = [im, np.fliplr(im), np.rot90(im, 2), np.flipud(im), im.T, np.rot90(im, -1), np.rot90(im, 2).T, np.rot90(im)][o - 1]
    return np.ascontiguousarray(im)


def pinhole_focal(p):
    f = p["focal"]
    if p["model"] in ("brown", "fisheye_opencv", "fisheye62"):
        f *= (1 + p["aspect_ratio"]) / 2
    return f


def grid(w, h, size):
    """Output pixels, and the pixels of the unscaled output they are taken from."""
    m = max(w, h)
    f = size / m
    ow, oh = (w, h) if f >= 1 else (int(round(w * f)), int(round(h * f)))
    x = np.minimum(np.floor(np.arange(ow) * (w / ow) + 1e-9), w - 1)
    y = np.minimum(np.floor(np.arange(oh) * (h / oh) + 1e-9), h - 1)
    return np.meshgrid(x, y)


def datasets(chk, rng):
    from opensfm import dataset, pygeometry
    from opensfm.actions import undistort

    for n in range(chk.n(72, 640)):
        models = [str(rng.choice(SUPPORTED)) for _ in range(int(rng.integers(1, 4)))]
        if rng.random() < 0.2:
            models.append(str(rng.choice(OTHER)))
        size = [(120, 90), (90, 120), (160, 100), (100, 100)][rng.integers(4)]
        layout = "inside" if "spherical" in models else None
        S = scenes.make(rng, models, len(models) + int(rng.integers(0, 3)), 60, layout, 0.6, size=size, names="im%02d.png")
        sub = int(rng.choice([40, 64]))
        for c, p in S.cams.items():
            if p["model"] == "spherical":
                p["width"], p["height"] = (4 * sub, 2 * sub) if rng.random() < 0.5 else (200, 100)
        S._limit = {}
        S.observe()
        fmt = str(rng.choice(["png", "png", "tif", "jpg"]))
        big = int(rng.choice([100000, 100000, 77, 30]))
        config = {"undistorted_image_format": fmt, "undistorted_image_max_size": big, "depthmap_resolution": sub, "processes": int(rng.choice([1, 1, 2])),
                  "segmentation_ignore_values": [1]}
        tracks = rng.random() < 0.85
        skip = rng.random() < 0.1
        chk.case("dataset", dict(config, models=models, shots=len(S.shots), size=size, tracks=tracks, skip_images=skip), sig=(chk.shard, n))
        data = S.dataset(os.path.join(chk.tmp, "d%d" % n), config)
        root = data.data_path
        pics = {}
        for s in S.shots:
            p = S.cams[S.shots[s]["cam"]]
            w, h = p["width"], p["height"]
            if p["model"] != "spherical" and rng.random() < 0.2:
                w, h = 2 * w, 2 * h
            deep = fmt in ("png", "tif") and rng.random() < 0.15
            channels = 3 if fmt == "jpg" else [3, 3, 3, 0, 4][rng.integers(5)]
            q = pics[s] = Picture(rng, w, h, channels, deep)
            write(os.path.join(root, "images", s), q.pixels)
            q.has_mask, q.has_labels = rng.random() < 0.6, rng.random() < 0.6
            q.orientation = int(rng.integers(0, 9))
            if q.has_mask:
                write(os.path.join(root, "masks", s + ".png"), upright(q.mask, max(1, q.orientation)))
            if q.has_labels:
                write(os.path.join(root, "segmentations", s + ".png"), upright(q.labels, max(1, q.orientation)))
        rec = S.reconstruction()
        for s in S.shots:
            if pics[s].orientation:
                rec.shots[s].metadata.orientation.value = pics[s].orientation
                chk.count("images turned", pics[s].orientation > 1)
            rec.shots[s].metadata.capture_time.value = float(rng.integers(1000))
        gone = set()
        if rng.random() < 0.2 and len(S.shots) > 1:
            s = sorted(S.shots)[0]
            os.remove(os.path.join(root, "images", s))
            gone.add(s)
        # lists of images and masks are made when a dataset is opened
        data = dataset.DataSet(root)
        data.save_reconstruction([rec])
        tm = S.tracks_manager()
        if tracks:
            data.save_tracks_manager(tm)
        out = str(rng.choice(["undistorted", "other"]))
        ok, _ = chk.guard(lambda: undistort.run_dataset(data, output=out, skip_images=skip), "undistort", models=models, **config)
        if not ok:
            continue
        udata = dataset.UndistortedDataSet(data, os.path.join(root, out))
        ids = udata.load_undistorted_shot_ids()
        want = {s for s in S.shots if s not in gone and S.cams[S.shots[s]["cam"]]["model"] in SUPPORTED}
        chk.expect(set(ids) == want, "other images were undistorted", got=sorted(ids), want=sorted(want))
        [urec] = udata.load_undistorted_reconstruction()
        names = [u for us in ids.values() for u in us]
        chk.expect(len(names) == len(set(names)) and set(names) == set(urec.shots), "undistorted images are not those of the model", got=sorted(urec.shots), want=sorted(names))
        chk.expect(all(u.endswith("." + fmt) for u in names), "format of undistorted images", got=names, want=fmt)
        chk.expect((urec.reference.lat, urec.reference.lon, urec.reference.alt) == (rec.reference.lat, rec.reference.lon, rec.reference.alt), "undistorted model has another reference")
        chk.expect(set(urec.points) == set(rec.points) and all((urec.points[k].coordinates == rec.points[k].coordinates).all() and list(urec.points[k].color) == list(rec.points[k].color)
                                                               for k in rec.points), "points of the undistorted model are others")
        utm = udata.load_undistorted_tracks_manager() if tracks else None
        for s in sorted(set(ids) & want):
            one(chk, rng, S, rec, s, ids[s], urec, tm if tracks else None, utm, sub)
            if not skip:
                for u in ids[s]:
                    if u in urec.shots:
                        judge_pixels(chk, S, s, u, urec, pics[s], os.path.join(root, out), big, sub, fmt)
                        view(chk, udata, u, pics[s])
            else:
                chk.expect(not os.path.exists(os.path.join(root, out, "images")), "images were undistorted although they should be skipped")


def one(chk, rng, S, rec, s, views, urec, tm, utm, sub):
    p = S.cams[S.shots[s]["cam"]]
    pano = p["model"] == "spherical"
    if not chk.expect(len(views) == (6 if pano else 1) and all(u in urec.shots for u in views), "number of views of an image", got=views, model=p["model"]):
        return
    R, o = S.shots[s]["R"], S.origin(s)
    for u in views:
        sh = urec.shots[u]
        cam = sh.camera
        chk.count("undistorted shots judged")
        chk.close(sh.pose.get_origin(), o, 1e-9, "position of an undistorted image", shot=u)
        chk.expect(cam.projection_type == "perspective" and cam.k1 == 0 and cam.k2 == 0, "an undistorted image has a distorted camera", shot=u, got=cam.projection_type)
        size = (sub, sub) if pano else (p["width"], p["height"])
        chk.expect((cam.width, cam.height) == size, "size of the camera of an undistorted image", got=(cam.width, cam.height), want=size)
        chk.close(cam.focal, 0.5 if pano else pinhole_focal(p), 1e-12, "focal of an undistorted image", model=p["model"])
        a, b = sh.metadata, rec.shots[s].metadata
        chk.expect(a.capture_time.value == b.capture_time.value and np.allclose(a.gps_position.value, b.gps_position.value, atol=1e-6), "metadata of an undistorted image")
        if not pano:
            chk.close(sh.pose.get_rotation_matrix(), R, 1e-9, "orientation of an undistorted image", shot=u)
        # a point's image is the undistorted image of the point
        Y = (S.X - o) @ sh.pose.get_rotation_matrix().T
        front = Y[:, 2] > 0.05
        if front.any():
            chk.count("points projected", front.sum())
            chk.close(sh.project_many(S.X[front]), cam.focal * Y[front, :2] / Y[front, 2:], 1e-9, "image of a point in an undistorted image", rel=True)
    if pano:
        chk.count("panorama views judged")
        Rs = [urec.shots[u].pose.get_rotation_matrix() for u in views]
        insts = {urec.shots[u].rig_instance_id for u in views}
        rigs = {urec.shots[u].rig_camera_id for u in views}
        chk.expect(len(insts) == 1 and len(rigs) == 6 and set(urec.rig_instances[next(iter(insts))].shots) == set(views), "views of a panorama are not one rig", got=(insts, rigs))
        d = rng.normal(size=(200, 3))
        inside = np.zeros(len(d), int)
        for Q in Rs:
            Y = d @ Q.T
            inside += (Y[:, 2] > 0) & (np.abs(Y[:, 0]) <= Y[:, 2]) & (np.abs(Y[:, 1]) <= Y[:, 2])
        chk.expect((inside == 1).all(), "the views of a panorama do not cover every direction once", got=np.bincount(inside).tolist())
        # one of them looks ahead, one up
        chk.expect(min(gen.rotation_angle(Q @ R.T) for Q in Rs) < 1e-6, "no view of a panorama looks ahead")
    if tm is None:
        return
    have = tm.get_shot_observations(s) if s in tm.get_shot_ids() else {}
    allviews = {u: utm.get_shot_observations(u) if u in utm.get_shot_ids() else {} for u in views}
    for u in views:
        extra = set(allviews[u]) - set(have)
        chk.expect(not extra, "an undistorted image has tracks the original has not", got=sorted(extra))
    for k, obs in have.items():
        b = direction(p, obs.point, S.X[int(k)], S, s)
        for u in views:
            Y = urec.shots[u].pose.get_rotation_matrix() @ (R.T @ b)
            f = urec.shots[u].camera.focal
            got = allviews[u].get(k)
            if Y[2] <= 1e-3:
                chk.expect(got is None or Y[2] > -1e-3, "a feature behind an undistorted image is seen in it", track=k, view=u)
                continue
            xy = f * Y[:2] / Y[2]
            edge = np.abs(xy).max() - 0.5
            if pano and abs(edge) < 1e-6:
                continue
            if not chk.expect((got is not None) == (edge < 0 if pano else True), "a feature is missing in (or too much for) an undistorted image", track=k, view=u, at=xy):
                continue
            if got is not None:
                chk.count("features compared")
                chk.close(got.point, xy, 2e-5, "undistorted position of a feature", rel=True, track=k, view=u, model=p["model"], original=obs.point)
                chk.expect(got.id == obs.id and list(got.color) == list(obs.color), "a feature of an undistorted image is another", track=k)


def direction(p, xy, X, S, s):
    """Direction of a feature: features of these scenes are exact images of their points."""
    Y = S.shots[s]["R"] @ X + S.shots[s]["t"]
    return Y / np.linalg.norm(Y)


def judge_pixels(chk, S, s, u, urec, q, root, big, sub, fmt):
    p = S.cams[S.shots[s]["cam"]]
    pano = p["model"] == "spherical"
    w, h = (sub, sub) if pano else (q.w, q.h)
    x, y = grid(w, h, big)
    if x.shape != (h, w):
        chk.count("images scaled down")
    f = urec.shots[u].camera.focal
    m = max(w, h)
    d = np.stack([(x - (w - 1) / 2) / m / f, (y - (h - 1) / 2) / m / f, np.ones_like(x)], -1).reshape(-1, 3)
    if pano:
        d = d @ (S.shots[s]["R"] @ urec.shots[u].pose.get_rotation_matrix().T).T
    src = gen.reference_project(p, d)
    M = max(q.w, q.h)
    sx = (src[:, 0] * M + (q.w - 1) / 2).reshape(x.shape)
    sy = (src[:, 1] * M + (q.h - 1) / 2).reshape(x.shape)
    got = read(os.path.join(root, "images", u))
    name = p["model"] + (" resized" if pano and q.w != 4 * sub else "")
    if not chk.expect(got is not None, "an undistorted image is missing", view=u):
        return
    chk.expect(max(got.shape[:2]) <= big, "an undistorted image is larger than the limit", got=got.shape, limit=big)
    if not chk.expect(got.shape[:2] == x.shape and (got.ndim == 2) == (not q.channels) and (not q.channels or got.shape[2] == q.channels), "shape of an undistorted image",
                      got=got.shape, want=x.shape, channels=q.channels):
        return
    chk.expect((got.dtype == np.uint16) == q.deep, "depth of an undistorted image", got=str(got.dtype))
    with np.errstate(all="ignore"):
        good = np.isfinite(sx + sy) & (np.abs(sx) < 1e6) & (np.abs(sy) < 1e6)
        if pano:
            inside = good & (sy > 1) & (sy < q.h - 2)
            outside = np.zeros_like(inside)
        else:
            inside = good & (sx >= 0) & (sx <= q.w - 1) & (sy >= 0) & (sy <= q.h - 1)
            outside = good & ((sx < -1.1) | (sx > q.w + 0.1) | (sy < -1.1) | (sy > q.h + 0.1))
    tol = (12 if fmt == "jpg" else 3) * q.scale
    if pano and q.w != 4 * sub:
        tol = max(tol, 10 * q.scale)
    G = got if got.ndim == 3 else got[..., None]
    for k in range(G.shape[2]):
        # compression ruins tiny pictures
        if inside.any() and (fmt != "jpg" or min(x.shape) >= 60):
            diff = np.abs(G[..., k][inside].astype(float) - q.at(sx[inside], sy[inside], k))
            chk.count("pixels compared", inside.sum())
            chk.extreme("pixel difference (%s)" % ("jpg" if fmt == "jpg" else name), (np.median(diff) if fmt == "jpg" else diff.max()) / q.scale)
            chk.expect((np.median(diff) if fmt == "jpg" else diff.max()) <= tol, "an undistorted image shows something else", view=u, model=name, channel=k, got=float(diff.max()), fmt=fmt)
        if outside.any() and fmt != "jpg":
            chk.count("pixels outside the original", outside.sum())
            chk.expect((G[..., k][outside] == 0).all(), "an undistorted image shows something outside of the original", view=u, model=name)
    for folder, there, ref in (("masks", q.has_mask, q.mask), ("segmentations", q.has_labels, q.labels)):
        got = read(os.path.join(root, folder, u + ".png"))
        if not chk.expect((got is not None) == there, "%s of undistorted images exist although (or missing when) the original has one" % folder, view=u):
            continue
        if not there:
            continue
        if not chk.expect(got.shape == x.shape and got.dtype == np.uint8, "shape of undistorted %s" % folder, got=got.shape, want=x.shape):
            continue
        if pano and q.w != 4 * sub:
            # resampled twice: the label comes from nearby
            r = int(np.ceil(max(1, q.w / (4 * sub)))) + 1
            near = np.zeros_like(inside)
            ix, iy = np.where(inside, np.rint(sx), 0).astype(int), np.where(inside, np.rint(sy), 0).astype(int)
            for dx in range(-r, r + 1):
                for dy in range(-r, r + 1):
                    near |= ref[np.clip(iy + dy, 0, q.h - 1), (ix + dx) % q.w] == got
            ok = near | ~inside
            chk.count("labels compared", inside.sum())
        else:
            clear = inside & (np.abs(sx % 1 - 0.5) > 0.05) & (np.abs(sy % 1 - 0.5) > 0.05)
            if pano:
                # pixels at the seam wrap around
                ix = np.where(clear, np.rint(sx), 0).astype(int) % q.w
            else:
                ix = np.where(clear, np.rint(sx), 0).astype(int)
            iy = np.where(clear, np.rint(sy), 0).astype(int)
            ok = (ref[iy, ix] == got) | ~clear
            chk.count("labels compared", clear.sum())
        chk.expect(ok.all(), "%s of an undistorted image differ from those of the original" % folder, view=u, model=name, count=int((~ok).sum()), of=int(ok.size))
        if outside.any():
            chk.expect((got[outside] == 0).all(), "%s of an undistorted image are set outside of the original" % folder, view=u)


def view(chk, udata, u, q):
    """What the dataset hands out is what is stored."""
    stored = read(os.path.join(udata.data_path, "images", u))
    if stored is None:
        return
    im = udata.load_undistorted_image(u)
    chk.expect(tuple(udata.undistorted_image_size(u))[:2] == stored.shape[:2] == im.shape[:2], "size of an undistorted image as told", got=udata.undistorted_image_size(u), want=stored.shape)
    if stored.ndim == 3 and stored.shape[2] == 3 and stored.dtype == np.uint8:
        chk.expect(np.array_equal(im, stored), "an undistorted image is read otherwise than stored")
    if not chk.expect(udata.undistorted_mask_exists(u) == q.has_mask and udata.undistorted_segmentation_exists(u) == q.has_labels, "existence of masks or segmentations as told"):
        return
    want = None
    if q.has_mask:
        want = read(os.path.join(udata.data_path, "masks", u + ".png"))
        chk.expect(np.array_equal(udata.load_undistorted_mask(u), want), "an undistorted mask is read otherwise than stored")
    if q.has_labels:
        lab = read(os.path.join(udata.data_path, "segmentations", u + ".png"))
        chk.expect(np.array_equal(udata.load_undistorted_segmentation(u), lab), "an undistorted segmentation is read otherwise than stored")
        sm = lab != 1
        want = sm if want is None else (want != 0) & sm
    got = udata.load_undistorted_combined_mask(u)
    chk.expect((got is None) == (want is None) and (got is None or np.array_equal(np.asarray(got) != 0, want != 0)), "combined mask of an undistorted image")


def run(chk):
    datasets(chk, chk.rng_for("datasets"))
