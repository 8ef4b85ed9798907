"""C28: extracted features lie in the image and survive masking and storing."""
import collections
import os

import numpy as np

from checks.c17 import Rate
from checks.c21 import write

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 300, "thorough": 850}
REQUIRED = ["extractions", "features judged", "colors compared", "extractions without features", "gray images compared", "positions of known blobs", "matches of moved images", "panorama settings",
            "images detected", "features masked out", "features kept", "labels compared", "words compared", "features loaded masked", "images skipped", "files of older versions", "feature files",
            "masks combined", "coordinates converted"]
RULE = ("one case = one image (noise, blobs, shapes, blank, tiny, thin, gray or color) given to one extractor with random settings; or one dataset of such images with masks, segmentations and "
        "orientations run through feature detection and loaded again; or one file, mask pair or set of coordinates; non-trivial when there are features")
ASSUMPTIONS = ["SURF needs a library which is not installed",
               "OpenCV's SIFT positions are off by a quarter of a pixel, which is within the tolerance for positions of blobs",
               "colors are compared where the position is no tie between pixels, masks where the position is no tie between mask pixels"]
TYPES = ["HAHOG", "SIFT", "AKAZE", "ORB"]
AKAZE = ["MSURF", "MSURF_UPRIGHT", "SURF", "SURF_UPRIGHT", "MLDB", "MLDB_UPRIGHT"]


def picture(rng, w, h, kind):
    import cv2

    if kind == "blank":
        im = np.full((h, w, 3), rng.integers(0, 256), np.uint8)
    elif kind == "shapes":
        im = np.full((h, w, 3), 90, np.uint8)
        for _ in range(int(rng.integers(3, 25))):
            c = tuple(int(v) for v in rng.integers(0, 256, 3))
            p = (int(rng.integers(0, w)), int(rng.integers(0, h)))
            q = (int(rng.integers(0, w)), int(rng.integers(0, h)))
            if rng.random() < 0.5:
                cv2.rectangle(im, p, q, c, -1)
            else:
                cv2.circle(im, p, int(rng.integers(2, 12)), c, -1)
    else:
        im = rng.integers(0, 256, (h, w, 3)).astype(np.uint8)
        s = {"noise": 0, "fine": 1.2, "smooth": 3.0}[kind]
        if s:
            im = cv2.GaussianBlur(im, (0, 0), s)
            im = cv2.normalize(im, None, 0, 255, cv2.NORM_MINMAX)
    return im


def blobs(rng, w, h):
    y, x = np.mgrid[:h, :w]
    im = np.full((h, w), 128.0)
    B = []
    for _ in range(20):
        s = rng.uniform(2.2, 5)
        cx, cy = rng.uniform(42, w - 43), rng.uniform(42, h - 43)
        if any(np.hypot(cx - b[0], cy - b[1]) < 45 for b in B):
            continue
        B.append((cx, cy, s))
        im += rng.choice([-1, 1]) * 90 * np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / (2 * s * s))
    return np.dstack([np.rint(im.clip(0, 255)).astype(np.uint8)] * 3), B


def settings(rng, kind=None):
    from opensfm import config

    c = config.default_config()
    c["feature_type"] = kind or str(rng.choice(TYPES))
    c["feature_min_frames"] = int(rng.choice([5, 60, 300, 3000]))
    c["feature_min_frames_panorama"] = int(rng.choice([10, 100, 1000]))
    c["feature_root"] = bool(rng.random() < 0.6)
    c["hahog_normalize_to_uchar"] = bool(rng.random() < 0.6)
    c["hahog_peak_threshold"] = float(rng.choice([1e-6, 1e-5, 1e-4]))
    c["akaze_descriptor"] = str(rng.choice(AKAZE))
    c["akaze_dthreshold"] = float(rng.choice([1e-4, 1e-3]))
    c["akaze_use_isotropic_diffusion"] = bool(rng.random() < 0.3)
    c["feature_use_adaptive_suppression"] = bool(rng.random() < 0.3)
    c["sift_peak_threshold"] = float(rng.choice([0.1, 0.02]))
    c["sift_nfeatures"] = int(rng.choice([0, 0, 40]))
    c["feature_process_size"] = int(rng.choice([-1, 0, 60, 100, 150, 2048]))
    c["feature_process_size_panorama"] = int(rng.choice([-1, 80, 120, 4096]))
    return c


def short(c):
    keys = ["feature_type", "feature_min_frames", "feature_root", "hahog_normalize_to_uchar", "akaze_descriptor", "feature_process_size", "feature_use_adaptive_suppression", "sift_nfeatures"]
    return {k: c[k] for k in keys}


def pixels(p, w, h):
    return p[:, 0] * max(w, h) + (w - 1) / 2, p[:, 1] * max(w, h) + (h - 1) / 2


def packed(c):
    return (c["feature_type"] == "HAHOG" and c["hahog_normalize_to_uchar"]) or c["feature_type"] == "ORB" or (c["feature_type"] == "AKAZE" and c["akaze_descriptor"].startswith("MLDB"))


# ------------------------------------------------------------- extraction
def judge(chk, c, im, p, d, col, pano, what):
    """Everything one extraction promises."""
    import cv2

    h, w = im.shape[:2]
    size, limit = (c["feature_process_size_panorama"], c["feature_min_frames_panorama"]) if pano else (c["feature_process_size"], c["feature_min_frames"])
    P = im
    if 0 < size < max(w, h):
        w, h = w * size // max(w, h), h * size // max(w, h)
        P = cv2.resize(im, (w, h), interpolation=cv2.INTER_AREA)
    t = c["feature_type"]
    n = len(p)
    chk.count("extractions")
    if not chk.expect(p.ndim == d.ndim == col.ndim == 2 and len(d) == len(col) == n and p.shape[1] >= 3 and col.shape[1] == 3, "features, descriptors and colors are not in step", **what,
                      got=(p.shape, d.shape, col.shape)):
        return
    if not n:
        chk.count("extractions without features")
        return
    chk.count("features judged", n)
    chk.expect(np.isfinite(p).all() and np.isfinite(d).all(), "features or descriptors are not finite", **what)
    x, y = pixels(p.astype(float), w, h)
    eps = 1e-3
    chk.expect((x > -0.5 - eps).all() and (x < w - 0.5 + eps).all() and (y > -0.5 - eps).all() and (y < h - 0.5 + eps).all(), "features lie outside of the image", **what,
               got=(x.min(), x.max(), y.min(), y.max()), size=(w, h))
    chk.expect((p[:, 2] > 0).all() and (p[:, 2] * max(w, h) < 3 * max(w, h)).all(), "sizes of features", **what, got=(p[:, 2].min(), p[:, 2].max()))
    clear = (np.abs(x % 1 - 0.5) > 1e-3) & (np.abs(y % 1 - 0.5) > 1e-3)
    ix, iy = np.clip(np.rint(x).astype(int), 0, w - 1), np.clip(np.rint(y).astype(int), 0, h - 1)
    want = P[iy, ix] if P.ndim == 3 and P.shape[2] == 3 else np.repeat(P.reshape(h, w)[iy, ix][:, None], 3, 1)
    chk.count("colors compared", clear.sum())
    chk.expect(np.array_equal(want[clear], col[clear]), "color of a feature is not that of its pixel", **what, size=(w, h))
    # limits
    places = len(np.unique(p[:, :2], axis=0))
    if t == "ORB":
        # ties are kept
        chk.expect(n <= 1.5 * limit + 10, "more features than asked for", **what, got=n, limit=limit)
    elif t == "SIFT" and c["sift_nfeatures"]:
        # ties are kept
        chk.expect(places <= 1.5 * c["sift_nfeatures"] + 3, "more features than asked for", **what, got=n, limit=c["sift_nfeatures"])
    elif t in ("HAHOG", "AKAZE"):
        chk.expect(places <= limit, "more features than asked for", **what, got=places, limit=limit)
    # descriptors
    D = d.astype(float)
    dim = {"SIFT": [128], "HAHOG": [128], "ORB": [32], "AKAZE": [64] if not c["akaze_descriptor"].startswith("MLDB") else [61]}[t]
    chk.expect(D.shape[1] in dim, "length of descriptors", **what, got=D.shape, want=dim)
    if packed(c):
        chk.expect((D == np.rint(D)).all() and D.min() >= 0 and D.max() <= 255, "descriptors are no bytes", **what, got=(D.min(), D.max()))
    if t == "SIFT" and c["feature_root"]:
        chk.expect(D.min() >= 0 and np.abs((D ** 2).sum(1) - 1).max() < 1e-4, "root descriptors are not unit vectors", **what)
    elif t == "SIFT":
        chk.expect(D.min() >= 0 and np.abs(np.linalg.norm(D, axis=1) - 512).max() < 20, "norm of descriptors", **what)
    elif t == "HAHOG":
        scale = 1.0
        if c["hahog_normalize_to_uchar"]:
            scale = 362.0 if c["feature_root"] else 512.0
        U = (D / scale) ** (2 if c["feature_root"] else 1)
        nn = np.linalg.norm(U, axis=1)
        flat = nn < 1e-9
        chk.extreme("HAHOG descriptor norm", np.abs(nn[~flat] - 1).max() if (~flat).any() else 0)
        chk.expect((np.abs(nn[~flat] - 1) < (0.08 if c["hahog_normalize_to_uchar"] else 1e-3)).all(), "norm of descriptors", **what, got=(nn.min(), nn.max()))
    elif t == "AKAZE" and not packed(c):
        nn = np.linalg.norm(D, axis=1)
        if not c["feature_root"]:
            chk.expect((np.abs(nn - 1) < 1e-3).all(), "norm of descriptors", **what, got=(nn.min(), nn.max()))
        else:
            s = np.square(D).sum(1) if "UPRIGHT" not in c["akaze_descriptor"] else None
            if s is not None:
                chk.expect((np.abs(s - 1) < 1e-3).all(), "root descriptors are not unit vectors", **what, got=(s.min(), s.max()))


def extraction(chk):
    from opensfm import features

    for i in range(chk.n(240, 4500)):
        rng = chk.rng_for("extract", i)
        c = settings(rng)
        kind = str(rng.choice(["noise", "fine", "smooth", "shapes", "blank"], p=[0.15, 0.3, 0.2, 0.25, 0.1]))
        w, h = [(int(rng.integers(60, 260)), int(rng.integers(60, 260))), (int(rng.integers(3, 40)), int(rng.integers(3, 40))), (int(rng.integers(100, 300)), int(rng.integers(16, 40))),
                (2 * int(rng.integers(40, 110)),) * 2][rng.choice(4, p=[0.6, 0.15, 0.1, 0.15])]
        if w == h:
            h = w // 2
        h = max(h, 3)
        if rng.random() < 0.5:
            w, h = h, w
        im = picture(rng, w, h, kind)
        channels = int(rng.choice([3, 3, 3, 1, 0]))
        if channels < 3:
            im = np.ascontiguousarray(im[..., 0] if channels == 0 else im[..., :1])
        pano = bool(rng.random() < 0.3)
        what = dict(short(c), width=w, height=h, image=kind, channels=channels, panorama=pano)
        size = c["feature_process_size_panorama"] if pano else c["feature_process_size"]
        if 0 < size < max(w, h) and min(w, h) * size // max(w, h) < 1:
            continue
        chk.case("extraction", what, sig=(chk.shard, i))
        before = im.copy()
        ok, r = chk.guard(lambda: features.extract_features(im, c, pano), "extraction", **what)
        if not ok:
            continue
        chk.expect(np.array_equal(im, before), "extraction changed the image", **what)
        p, d, col = r
        judge(chk, c, im, p, d, col, pano, what)
        chk.count("panorama settings", pano)
        if channels < 3 and rng.random() < 0.7:
            others = [im.reshape(h, w), im.reshape(h, w, 1), np.repeat(im.reshape(h, w, 1), 3, 2)]
            for o in others:
                ok, q = chk.guard(lambda: features.extract_features(np.ascontiguousarray(o), c, pano), "extraction", **what)
                if not ok:
                    break
                chk.count("gray images compared")
                same = len(q[0]) == len(p) and np.array_equal(q[0], p) and np.array_equal(q[1], d) and np.array_equal(q[2], col)
                chk.expect(same, "the same gray picture in another shape has other features", **what, shape=o.shape)
        elif rng.random() < 0.2:
            q = features.extract_features(im, c, pano)
            chk.expect(all(np.array_equal(a, b) for a, b in zip(q, (p, d, col))), "extracting again gives other features", **what)


def placement(chk):
    from opensfm import features

    rate = Rate()
    for i in range(chk.n(32, 480)):
        rng = chk.rng_for("blobs", i)
        w, h = (int(v) for v in rng.integers(170, 330, 2))
        im, B = blobs(rng, w, h)
        scale = float(rng.choice([1, 1, 2]))
        chk.case("blobs", dict(width=w, height=h, blobs=len(B)), sig=(chk.shard, i))
        for t in TYPES[:3]:
            c = settings(rng, t)
            c.update(feature_min_frames=2000, hahog_peak_threshold=1e-5, akaze_dthreshold=1e-3, sift_nfeatures=0, sift_peak_threshold=0.02, feature_use_adaptive_suppression=False,
                     akaze_use_isotropic_diffusion=False, feature_process_size=-1)
            big = im if scale == 1 else np.kron(im, np.ones((2, 2, 1), np.uint8))
            if scale == 2:
                c["feature_process_size"] = max(w, h)
            p, d, col = features.extract_features(big, c, False)
            judge(chk, c, big, p, d, col, False, dict(short(c), width=w, height=h, image="blobs"))
            if not len(p):
                rate.add("blobs found (%s)" % t, False, 0.8)
                continue
            x, y = pixels(p.astype(float), w, h)
            size = p[:, 2].astype(float) * max(w, h)
            for cx, cy, s in B:
                r = np.maximum(np.abs(x - cx), np.abs(y - cy))
                k = int(np.argmin(r))
                chk.count("positions of known blobs")
                rate.add("blobs found (%s)" % t, r[k] < 3, 0.8)
                if r[k] < 3:
                    rate.add("blobs found at their place (%s)" % t, r[k] < (0.42 if t == "SIFT" else 0.2), 0.85)
                    lo, hi = {"HAHOG": (0.9, 1.1), "SIFT": (1.5, 2.1), "AKAZE": (0.9, 3.6)}[t]
                    rate.add("blobs found with their size (%s)" % t, lo < size[k] / s < hi, 0.8)
    rate.judge(chk)


def moved(chk):
    """Descriptors belong to their features: matching a moved picture tells the motion."""
    from opensfm import features

    rate = Rate()
    for i in range(chk.n(32, 480)):
        rng = chk.rng_for("moved", i)
        w, h = 220, 180
        big = picture(rng, w + 60, h + 60, "smooth" if rng.random() < 0.6 else "fine")
        dx, dy = int(rng.integers(5, 50)), int(rng.integers(5, 50))
        turn = int(rng.integers(4))
        a = np.ascontiguousarray(big[:h, :w])
        b = np.ascontiguousarray(np.rot90(big[dy:dy + h, dx:dx + w], turn))
        for t in TYPES:
            c = settings(rng, t)
            c.update(feature_min_frames=400, feature_process_size=-1, sift_nfeatures=0, hahog_peak_threshold=1e-5, akaze_dthreshold=1e-4)
            if "UPRIGHT" in c["akaze_descriptor"]:
                c["akaze_descriptor"] = "MSURF"
            what = dict(short(c), move=(dx, dy), turn=turn)
            chk.case("moved", what, sig=(chk.shard, i, t))
            (p, d, _), (q, e, _) = features.extract_features(a, c, False), features.extract_features(b, c, False)
            if len(p) < 20 or len(q) < 20:
                continue
            hb, wb = b.shape[:2]
            xa, ya = pixels(p.astype(float), w, h)
            xb, yb = pixels(q.astype(float), wb, hb)
            # undo the turn: rot90 turns counterclockwise
            if turn == 1:
                xb, yb = w - 1 - yb, xb
            elif turn == 2:
                xb, yb = w - 1 - xb, h - 1 - yb
            elif turn == 3:
                xb, yb = yb, h - 1 - xb
            if d.dtype == np.uint8:
                A, B = np.unpackbits(d, axis=1).astype(float), np.unpackbits(e, axis=1).astype(float)
            else:
                A, B = d.astype(float), e.astype(float)
            G = (A ** 2).sum(1)[:, None] + (B ** 2).sum(1)[None] - 2 * A @ B.T
            j = G.argmin(1)
            mutual = G.argmin(0)[j] == np.arange(len(j))
            two = np.sort(G, 1)[:, :2]
            m = mutual & (two[:, 0] < 0.5 * two[:, 1])
            if m.sum() < 10:
                rate.add("moved pictures matched (%s)" % t, False, 0.5)
                continue
            rate.add("moved pictures matched (%s)" % t, True, 0.5)
            good = np.hypot(xa[m] - dx - xb[j[m]], ya[m] - dy - yb[j[m]]) < 3
            chk.count("matches of moved images", m.sum())
            rate.add("matches agree with the motion (%s)" % t, good.mean() > 0.8, 0.85)
            # the angle of a feature turns with the picture
            if p.shape[1] > 3 and q.shape[1] > 3 and t in ("HAHOG", "SIFT"):
                k = np.nonzero(m)[0][good]
                da = (q[j[k], 3] - p[k, 3] + 90 * turn) % 360
                near = np.minimum(da, 360 - da) < 15
                rate.add("angles turn with the picture (%s)" % t, near.mean() > 0.7, 0.8)
    rate.judge(chk)


# --------------------------------------------------------------- datasets
def place(points, w, h, orientation):
    """Position in the upright picture, from 0 to 1."""
    s = max(w, h)
    u, v = points[:, 0].astype(float) * s / w + 0.5, points[:, 1].astype(float) * s / h + 0.5
    return [(u, v), (1 - u, v), (1 - u, 1 - v), (u, 1 - v), (v, u), (1 - v, u), (1 - v, 1 - u), (v, 1 - u)][orientation - 1]


def lookup(im, u, v, margin):
    """Values of an image at positions, and whether they are the same nearby."""
    H, W = im.shape
    vals = []
    for a in (-margin, 0, margin):
        for b in (-margin, 0, margin):
            x, y = np.floor(u * W + a).astype(int), np.floor(v * H + b).astype(int)
            vals.append(im[np.clip(y, 0, H - 1), np.clip(x, 0, W - 1)].astype(int))
    vals = np.array(vals)
    return vals[4], (vals == vals[4]).all(0)


def labels(rng, orientation, w, h, values):
    a, b = (w, h) if orientation < 5 else (h, w)
    if rng.random() < 0.5:
        f = float(rng.choice([0.4, 0.5, 1.7, 2.0]))
        a, b = max(8, int(a * f)), max(8, int(b * f))
    k = int(rng.integers(5, 14))
    L = rng.choice(values, (b // k + 1, a // k + 1)).astype(np.uint8)
    return np.kron(L, np.ones((k, k), np.uint8))[:b, :a].copy()


def rows(p, d, c):
    p, c = np.ascontiguousarray(p, np.float32), np.ascontiguousarray(c, np.float32)
    return [a.tobytes() + b.tobytes() + e.tobytes() for a, b, e in zip(p, np.ascontiguousarray(d), c)]


def datasets(chk):
    import io
    import json

    import yaml

    from opensfm import dataset, feature_loader, features, pygeometry
    from opensfm.actions import detect_features

    for i in range(chk.n(64, 900)):
        rng = chk.rng_for("dataset", i)
        root = os.path.join(chk.tmp, "d%d" % i)
        words = rng.random() < 0.3
        c = settings(rng, "HAHOG" if words else None)
        bake = bool(rng.random() < 0.4)
        ignore = [int(v) for v in rng.choice(6, int(rng.integers(0, 4)), replace=False)]
        conf = dict({k: c[k] for k in c if k.startswith(("feature_", "akaze", "hahog", "sift"))}, features_bake_segmentation=bake, segmentation_ignore_values=ignore,
                    processes=int(rng.choice([1, 2, 4])), read_processes=int(rng.choice([1, 2, 4])))
        if words:
            conf.update(hahog_normalize_to_uchar=True, feature_root=True, bow_file="bow_hahog_root_uchar_64.npz", bow_words_to_match=int(rng.choice([1, 5, 20])),
                        bow_matcher_type=str(rng.choice(["FLANN", "BruteForce"])))
            conf[["matching_bow_neighbors", "matcher_type"][rng.integers(2)]] = 3
            if conf.get("matcher_type"):
                conf["matcher_type"] = "WORDS"
        n = int(rng.integers(1, 5))
        S = []
        os.makedirs(root)
        with open(os.path.join(root, "config.yaml"), "w") as f:
            yaml.safe_dump(conf, f)
        cams = {}
        for k in range(n):
            w, h = int(rng.integers(70, 180)), int(rng.integers(70, 180))
            if rng.random() < 0.25:
                w = 2 * h
            kind = str(rng.choice(["noise", "fine", "smooth", "shapes", "blank"], p=[0.1, 0.35, 0.3, 0.15, 0.1]))
            im = picture(rng, w, h, kind)
            name = "im%d.png" % k
            style = int(rng.integers(4))
            if style == 1:
                write(os.path.join(root, "images", name), im[..., 0])
                im = np.repeat(im[..., :1], 3, 2)
            elif style == 2:
                write(os.path.join(root, "images", name), np.dstack([im, np.full((h, w), 200, np.uint8)]))
            else:
                write(os.path.join(root, "images", name), im)
            o = int(rng.choice([1, 1, 1, 2, 3, 4, 5, 6, 7, 8]))
            q = dict(name=name, w=w, h=h, o=o, image=im, mask=None, seg=None, inst=None)
            if rng.random() < 0.6:
                q["mask"] = labels(rng, o, w, h, [0, 1, 2, 4, 128, 255] if rng.random() < 0.5 else [0, 255])
                write(os.path.join(root, "masks", name + ".png"), q["mask"])
            if rng.random() < 0.6:
                q["seg"] = labels(rng, o, w, h, np.arange(6))
                write(os.path.join(root, "segmentations", name + ".png"), q["seg"])
                if rng.random() < 0.5:
                    q["inst"] = labels(rng, o, w, h, np.arange(200))
                    write(os.path.join(root, "instances", name + ".png"), q["inst"])
            q["pano"] = rng.random() < 0.15
            cam = pygeometry.Camera.create_spherical() if q["pano"] else pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
            cam.id, cam.width, cam.height = "cam%d" % k, w, h
            cams[cam.id] = cam
            q["cam"] = cam
            S.append(q)
        data = dataset.DataSet(root)
        for q in S:
            data.save_exif(q["name"], {"camera": q["cam"].id, "width": q["w"], "height": q["h"], "orientation": q["o"], "projection_type": q["cam"].projection_type})
        data.save_camera_models(cams)
        data = dataset.DataSet(root)
        what = dict(short(conf), bake=bake, ignore=ignore, words=words and (conf["bow_matcher_type"], conf["bow_words_to_match"]), images=n, processes=conf["processes"], orientations=[q["o"] for q in S])
        chk.case("dataset", what, sig=(chk.shard, i))
        ok, _ = chk.guard(lambda: detect_features.run_dataset(data), "detect_features", **what)
        if not ok:
            continue
        feature_loader.instance.clear_cache()
        listed = {r["image"]: r for r in json.load(open(os.path.join(root, "reports", "features.json")))["image_reports"]}
        chk.expect(set(listed) == {q["name"] for q in S}, "images of the features report", got=sorted(listed), **what)
        for q in S:
            one(chk, rng, data, q, bake, ignore, words, listed.get(q["name"], {}), dict(what, image=q["name"], orientation=q["o"]))
        # a second run computes only what is missing
        files = {q["name"]: os.path.join(root, "features", f) for q in S for f in os.listdir(os.path.join(root, "features")) if f.startswith(q["name"]) and "words" not in f}
        if len(files) == n:
            for f in files.values():
                os.utime(f, ns=(10 ** 18, 10 ** 18))
            gone = S[int(rng.integers(n))]["name"]
            content = open(files[gone], "rb").read()
            os.remove(files[gone])
            ok, _ = chk.guard(lambda: detect_features.run_dataset(data), "detect_features", **what)
            for k, f in files.items():
                if not chk.expect(os.path.exists(f), "features are missing", image=k, **what):
                    continue
                if k == gone:
                    A, B = np.load(f), np.load(io.BytesIO(content))
                    chk.expect(sorted(A.files) == sorted(B.files) and all(np.array_equal(A[z], B[z]) for z in A.files), "detecting features again gives others", **what)
                else:
                    chk.count("images skipped")
                    chk.expect(os.stat(f).st_mtime_ns == 10 ** 18, "features which exist were detected again", image=k, **what)
        feature_loader.instance.clear_cache()


def one(chk, rng, data, q, bake, ignore, words, report, what):
    from opensfm import feature_loader, features

    c = data.config
    name, w, h, o = q["name"], q["w"], q["h"], q["o"]
    pano = q["pano"] or w == 2 * h
    p, d, col = features.extract_features(q["image"], c, pano)
    chk.count("images detected")
    chk.count("panorama settings", pano)
    F = data.load_features(name)
    if not chk.expect(F is not None, "features are missing", **what):
        return
    n = len(F.points)
    if not chk.expect(F.descriptors is not None and len(F.descriptors) == len(F.colors) == n and (F.semantic is None or len(F.semantic.segmentation) == n), "arrays of stored features are not in step", **what):
        return
    chk.expect(report.get("num_features") == n, "number of features in the report", got=report.get("num_features"), want=n, **what)
    if n:
        chk.expect((np.diff(F.points[:, 2]) >= 0).all(), "features are not sorted by size", **what)
    u, v = place(p, w, h, o) if len(p) else (np.zeros(0), np.zeros(0))
    keep, sure = np.ones(len(p), bool), np.ones(len(p), bool)
    margin = 1e-3
    useg = q["seg"] is not None and bool(ignore)
    if q["mask"] is not None and useg and q["mask"].shape != q["seg"].shape:
        margin = None
    near, m = {}, margin
    for key, im in (("mask", q["mask"]), ("seg", q["seg"]), ("inst", q["inst"])):
        if im is not None:
            m = margin
            if m is None:
                m = 1.01 * max(1, max(im.shape[k] / min(q["mask"].shape[k], q["seg"].shape[k]) for k in (0, 1)))
            near[key] = lookup(im, u, v, m), lookup(im, u, v, 1e-3)
    if q["mask"] is not None:
        keep &= near["mask"][0][0] != 0
        sure &= near["mask"][0][1]
    if useg:
        keep &= ~np.isin(near["seg"][0][0], ignore)
        sure &= near["seg"][0][1]
    D = d.astype(np.uint8 if packed(c) else np.float32).astype(F.descriptors.dtype)
    baked = bake
    have = collections.Counter(rows(F.points, F.descriptors, F.colors))
    R = rows(p, D, col)
    chk.expect(not (have - collections.Counter(R)), "stored features were not extracted from the image, or their arrays are mixed up", count=sum((have - collections.Counter(R)).values()), of=n, **what)
    # features may appear twice
    if baked:
        chk.expect(have == collections.Counter(R), "features are missing although they are not masked when stored", got=n, want=len(p), **what)
    else:
        must = collections.Counter(R[k] for k in np.nonzero(keep & sure)[0])
        mustnot = set(R[k] for k in np.nonzero(~keep & sure)[0])
        chk.count("features kept", sum(must.values()))
        chk.count("features masked out", len(mustnot))
        chk.expect(not (must - have), "features out of the masked area were removed", count=sum((must - have).values()), of=len(p), **what)
        left = [k for k in have if k in mustnot and k not in must]
        chk.expect(not left, "features on masked pixels were kept", count=len(left), of=len(p), **what)
    # labels
    sem = F.semantic
    if baked and q["seg"] is not None and n:
        if chk.expect(sem is not None, "labels are missing", **what):
            ref = {}
            for k, r in enumerate(R):
                ref.setdefault(r, k)
            ks = np.array([ref.get(r, -1) for r in rows(F.points, F.descriptors, F.colors)])
            val, sr = near["seg"][1]
            good = (ks >= 0) & sr[ks]
            chk.count("labels compared", good.sum())
            chk.expect((sem.segmentation[good] == val[ks[good]]).all(), "label of a feature is not that of its pixel", **what)
            chk.expect(sem.has_instances() == (q["inst"] is not None), "instances exist although (or missing when) there are some", **what)
            if q["inst"] is not None and sem.has_instances():
                val, sr = near["inst"][1]
                good = (ks >= 0) & sr[ks]
                chk.expect((sem.instances[good] == val[ks[good]]).all(), "instance of a feature is not that of its pixel", **what)
    else:
        chk.expect(sem is None, "labels exist although there are none", **what)
    # loading
    L = feature_loader.instance
    every = L.load_all_data(data, name, False, False)
    some = L.load_all_data(data, name, True, False)
    chk.expect(np.array_equal(every.points, F.points[:, :3]) and np.array_equal(every.descriptors, F.descriptors) and np.array_equal(every.colors, F.colors), "features are loaded otherwise than stored", **what)
    mask = L.load_mask(data, name)
    u, v = place(F.points, w, h, o) if n else (np.zeros(0), np.zeros(0))
    keep, sure = np.ones(n, bool), np.ones(n, bool)
    if baked:
        m = 1e-3
        if q["mask"] is not None and n:
            a, b = lookup(q["mask"], u, v, m)
            keep, sure = keep & (a != 0), sure & b
        if sem is not None:
            keep &= ~np.isin(sem.segmentation, ignore)
        elif q["seg"] is not None and ignore and n:
            a, b = lookup(q["seg"], u, v, m)
            keep, sure = keep & ~np.isin(a, ignore), sure & b
    elif n:
        # what is left is not masked, but positions were rounded when they were stored
        for key in ("mask", "seg"):
            if q[key] is not None:
                sure &= lookup(q[key], u, v, 1e-3 if margin else m)[1]
    if mask is not None:
        if chk.expect(len(mask) == n, "mask of the features is not in step", got=len(mask), want=n, **what) and n:
            chk.count("features loaded masked", sure.sum())
            bad = (np.asarray(mask) != keep) & sure
            chk.expect(not bad.any(), "mask of the features", count=int(bad.sum()), of=n, baked=bake, **what)
            chk.expect(np.array_equal(some.points, every.points[mask]) and np.array_equal(some.descriptors, every.descriptors[mask]) and np.array_equal(some.colors, every.colors[mask])
                       and (sem is None or np.array_equal(some.semantic.segmentation, sem.segmentation[mask])), "masked features are not those of the mask", **what)
    else:
        chk.expect(keep.all() and np.array_equal(some.points, every.points), "masked features are not those of the mask", **what)
    chk.expect(np.array_equal(L.load_points_colors_segmentations_instances(data, name).points, every.points), "features are loaded otherwise than stored", **what)
    for masked, f in ((False, every), (True, some)):
        B = L.load_bearings(data, name, masked, q["cam"])
        if len(f.points):
            Y = q["cam"].pixel_bearing_many(np.array(f.points[:, :2]))
            chk.expect(B.shape == Y.shape and np.abs(B - Y).max() < 1e-12, "bearings are not those of the features", masked=masked, **what)
        else:
            chk.expect(len(B) == 0, "bearings are not those of the features", masked=masked, **what)
    if c["feature_type"] == "HAHOG" and c["hahog_normalize_to_uchar"]:
        for masked, f in ((False, every), (True, some)):
            g = L.load_all_data(data, name, masked, True)
            if f.semantic is None:
                chk.expect(np.array_equal(g.descriptors, f.descriptors), "descriptors with labels", **what)
            else:
                extra = g.descriptors[:, f.descriptors.shape[1]:]
                a = f.semantic.segmentation.astype(float)
                chk.expect(np.array_equal(g.descriptors[:, :f.descriptors.shape[1]], f.descriptors) and extra.shape[1] >= 1 and np.array_equal(g.points, f.points), "descriptors with labels", **what)
                if len(a):
                    k = np.argmax(a)
                    chk.expect(np.abs(extra[:, -1] * (a[k] or 1) - a * extra[k, -1]).max() < 1e-3 and (not a[k] or extra[k, -1] > 0), "descriptors with labels", **what)
    if words:
        W = L.load_words(data, name, False)
        M = L.load_words(data, name, True)
        if not chk.expect(len(W) == n, "words are not in step with the features", got=W.shape, want=n, **what):
            return
        if n:
            from opensfm import bow
            V = bow.load_bows(c).words.astype(float)
            G = (every.descriptors.astype(float) ** 2).sum(1)[:, None] + (V ** 2).sum(1)[None] - 2 * every.descriptors.astype(float) @ V.T
            k = c["bow_words_to_match"]
            chk.expect(W.shape == (n, k), "number of words", got=W.shape, want=(n, k), **what)
            best = np.sort(G, 1)[:, :k]
            got = np.take_along_axis(G, W.astype(int), 1)
            chk.count("words compared", got.size)
            if c["bow_matcher_type"] == "FLANN":
                chk.expect((got[:, 0] <= best[:, 0] + 1).mean() > 0.9, "words are not the closest", share=float((got[:, 0] <= best[:, 0] + 1).mean()), **what)
            else:
                chk.expect(np.abs(got - best).max() < 1 + 1e-4 * best.max(), "words are not the closest", **what)
        if mask is not None:
            chk.expect(np.array_equal(M, W[mask]), "masked words are not those of the mask", **what)
        else:
            chk.expect(np.array_equal(M, W), "masked words are not those of the mask", **what)


# ------------------------------------------------------------------ files
def files(chk):
    from opensfm import features

    for i in range(chk.n(240, 4000)):
        rng = chk.rng_for("files", i)
        c = settings(rng)
        n = int(rng.choice([0, 1, 2, int(rng.integers(3, 200))]))
        byte = packed(c)
        dim = int(rng.choice([32, 61, 64, 128]))
        p = rng.uniform(-0.5, 0.5, (n, int(rng.choice([3, 4]))))
        p[:, 2] = np.sort(rng.uniform(1e-4, 0.1, n))
        d = rng.integers(0, 256, (n, dim)).astype(rng.choice([np.uint8, np.float32])) if byte else rng.normal(size=(n, dim)).astype(np.float32)
        col = rng.integers(0, 256, (n, 3)).astype(rng.choice([np.uint8, np.float64]))
        sem = None
        if rng.random() < 0.5:
            inst = rng.integers(0, 3000, n) if rng.random() < 0.5 else None
            sem = features.SemanticData(rng.integers(0, 256, n), inst, [{"name": "a"}] if rng.random() < 0.5 else [])
        F = features.FeaturesData(p, d, col, sem, rng.random(n) if rng.random() < 0.3 else None)
        path = os.path.join(chk.tmp, "f.npz")
        version = int(rng.choice([3, 3, 3, 0, 1, 2]))
        what = dict(short(c), count=n, version=version, labels=sem is not None)
        chk.case("file", what, sig=(chk.shard, i))
        if version == 3:
            if rng.random() < 0.5:
                ok, _ = chk.guard(lambda: F.save(path, c), "saving features", **what)
            else:
                with open(path, "wb") as f:
                    ok, _ = chk.guard(lambda: F.save(f, c), "saving features", **what)
            if not ok:
                continue
        else:
            store = dict(points=p.astype(np.float32), descriptors=d.astype(np.uint8 if byte else np.float32), colors=col)
            if version:
                store["OPENSFM_FEATURES_VERSION"] = version
            if version == 2:
                if sem is not None:
                    # these files hold both or nothing that can be read
                    sem.instances = rng.integers(0, 3000, n)
                store.update(segmentations=None if sem is None else sem.segmentation.astype(np.uint8), instances=None if sem is None or sem.instances is None else sem.instances.astype(np.int16),
                             segmentation_labels=[])
            np.savez_compressed(path, **store)
        if rng.random() < 0.5:
            ok, G = chk.guard(lambda: features.FeaturesData.from_file(path, c), "loading features", **what)
        else:
            with open(path, "rb") as f:
                ok, G = chk.guard(lambda: features.FeaturesData.from_file(f, c), "loading features", **what)
        if not ok:
            continue
        chk.count("feature files")
        chk.count("files of older versions", version < 3)
        want = p.astype(np.float32)
        if version == 0:
            want[:, 2] = c["reprojection_error_sd"]
        chk.expect(np.array_equal(G.points, want), "points of a feature file", **what)
        chk.expect(np.array_equal(G.descriptors.astype(float), d.astype(float)) and (c["feature_type"] != "HAHOG" or G.descriptors.dtype == np.float32)
                   and (c["feature_type"] == "HAHOG" or not byte or G.descriptors.dtype == np.uint8), "descriptors of a feature file", **what, dtype=str(G.descriptors.dtype))
        chk.expect(np.array_equal(G.colors, col) and G.colors.dtype == float, "colors of a feature file", **what)
        if sem is None or version < 2:
            chk.expect(G.semantic is None, "labels of a feature file", **what)
        elif n:
            if chk.expect(G.semantic is not None, "labels of a feature file", **what):
                chk.expect(np.array_equal(G.semantic.segmentation, sem.segmentation), "labels of a feature file", **what)
                chk.expect(G.has_instances() == (sem.instances is not None), "instances of a feature file", **what)
                if sem.instances is not None and G.semantic.instances is not None:
                    chk.expect(np.array_equal(G.semantic.instances, sem.instances), "instances of a feature file", **what)
        # masks
        m = rng.random(n) < rng.choice([0, 0.5, 1])
        if rng.random() < 0.3:
            m = np.nonzero(m)[0]
        for X in (F, G):
            ok, Y = chk.guard(lambda: X.mask(m), "masking features", **what)
            if not ok:
                break
            chk.expect(np.array_equal(Y.points, X.points[m]) and np.array_equal(Y.descriptors, X.descriptors[m]) and np.array_equal(Y.colors, X.colors[m]), "masked features are others", **what)
            chk.expect((Y.depths is None) == (X.depths is None) and (X.depths is None or np.array_equal(Y.depths, X.depths[m])), "depths of masked features are others", **what)
            if X.semantic is not None:
                chk.expect(Y.semantic is not None and np.array_equal(Y.semantic.segmentation, X.semantic.segmentation[m]) and
                           (X.semantic.instances is None or np.array_equal(Y.semantic.instances, X.semantic.instances[m])), "labels of masked features are others", **what)


def masks(chk):
    from opensfm import features, masking, upright

    for i in range(chk.n(400, 8000)):
        rng = chk.rng_for("masks", i)
        h, w = (int(v) for v in rng.integers(1, 40, 2))
        f = int(rng.choice([1, 1, 2, 3]))
        A = rng.choice([0, 1, 2, 64, 128, 255], (h, w)).astype(np.uint8)
        B = rng.choice([0, 1, 2, 64, 128, 255], (h * f, w * f)).astype(np.uint8)
        if rng.random() < 0.5:
            A, B = B, A
        chk.case("masks", dict(width=w, height=h, factor=f), sig=(chk.shard, i))
        a, b = A.copy(), B.copy()
        ok, C = chk.guard(lambda: masking.combine_masks(A, B), "combining masks")
        if ok:
            big = lambda M: np.kron(M, np.ones((h * f // M.shape[0],) * 2, np.uint8)) if M.shape[0] != h * f else M
            chk.count("masks combined")
            chk.expect(C.shape == (h * f, w * f) and np.array_equal(C != 0, (big(a) != 0) & (big(b) != 0)), "combined mask", factor=f)
            chk.expect(np.array_equal(a, A) and np.array_equal(b, B), "combining masks changed them")
        chk.expect(masking.combine_masks(None, None) is None and np.array_equal(masking.combine_masks(A, None), a) and np.array_equal(masking.combine_masks(None, B), b), "combining with no mask")
        seg = rng.integers(0, 256 if rng.random() < 0.5 else 6, (h, w)).astype(np.uint8)
        ignore = [int(v) for v in rng.integers(0, 256 if rng.random() < 0.3 else 6, int(rng.integers(0, 5)))]
        M = masking.mask_from_segmentation(seg, ignore)
        chk.expect(M.shape == seg.shape and np.array_equal(M != 0, ~np.isin(seg, ignore)), "mask of a segmentation", ignore=ignore)
        # coordinates
        w, h = (int(v) for v in rng.integers(1, 6000, 2))
        n = int(rng.integers(1, 20))
        x = np.stack([rng.uniform(-0.5, w - 0.5, n), rng.uniform(-0.5, h - 0.5, n)], 1)
        keepx = x.copy()
        N = features.normalized_image_coordinates(x, w, h)
        chk.count("coordinates converted", n)
        want = np.stack([(x[:, 0] - (w - 1) / 2) / max(w, h), (x[:, 1] - (h - 1) / 2) / max(w, h)], 1)
        chk.expect(np.abs(N - want).max() < 1e-12 and np.array_equal(x, keepx), "normalized coordinates", width=w, height=h)
        chk.expect(np.abs(features.denormalized_image_coordinates(N, w, h) - x).max() < 1e-8, "coordinates change in a round trip", width=w, height=h)
        o = int(rng.integers(1, 9))
        nw, nh = (int(v) for v in rng.integers(1, 5000, 2)) if rng.random() < 0.5 else ((w, h) if o < 5 else (h, w))
        u, v = place(N, w, h, o)
        got = upright.opensfm_to_upright(N, w, h, o, new_width=nw, new_height=nh)
        chk.expect(np.abs(got - np.stack([u * nw, v * nh], 1)).max() < 1e-8 * max(nw, nh), "upright coordinates", orientation=o)
        im = rng.integers(0, 256, (h % 20 + 1, w % 20 + 1)).astype(np.uint8)
        # the size given to the normalization is what the coordinates refer to, whatever the resolution
        s = max(im.shape)
        P = np.array([[0.1 * s, 0.2 * s, 3.0, 10.0]])
        Q, _, _ = features.normalize_features(P.copy(), np.zeros((1, 1)), np.zeros((1, 3)), im.shape[1], im.shape[0])
        chk.expect(abs(Q[0, 2] * s - 3) < 1e-9 and Q[0, 3] == 10 and np.abs(Q[:, :2] - features.normalized_image_coordinates(P[:, :2], im.shape[1], im.shape[0])).max() < 1e-12,
                   "normalized features")


def run(chk):
    extraction(chk)
    placement(chk)
    moved(chk)
    datasets(chk)
    files(chk)
    masks(chk)
