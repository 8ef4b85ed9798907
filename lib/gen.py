"""Generators shared by the checks, and independent reference formulas."""
import numpy as np

MODELS = ["perspective", "simple_radial", "radial", "brown", "fisheye", "fisheye_opencv",
          "fisheye62", "fisheye624", "dual", "spherical"]
NDIST = {"perspective": 2, "simple_radial": 1, "radial": 2, "brown": 5, "fisheye": 2,
         "fisheye_opencv": 4, "fisheye62": 8, "fisheye624": 12, "dual": 2, "spherical": 0}
DNAMES = {
    "perspective": ["k1", "k2"], "simple_radial": ["k1"], "radial": ["k1", "k2"],
    "brown": ["k1", "k2", "k3", "p1", "p2"], "fisheye": ["k1", "k2"],
    "fisheye_opencv": ["k1", "k2", "k3", "k4"],
    "fisheye62": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"],
    "fisheye624": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"],
    "dual": ["k1", "k2"], "spherical": [],
}
UNIFORM = ("perspective", "fisheye", "dual")
ANGULAR = ("fisheye", "fisheye_opencv", "fisheye62", "fisheye624")


def camera_params(rng, model, strength=1.0, size=None):
    """Random parameters of a camera model (plain dictionary)."""
    w, h = size or [(640, 480), (480, 640), (500, 500), (4000, 3000), (37, 91), (1920, 1081)][rng.integers(6)]
    p = {"model": model, "width": int(w), "height": int(h)}
    if model == "spherical":
        return p
    p["focal"] = float(rng.uniform(0.3, 1.4))
    if model not in UNIFORM:
        p["aspect_ratio"] = float(rng.uniform(0.8, 1.25))
        p["cx"], p["cy"] = (float(x) for x in rng.uniform(-0.08, 0.08, 2))
    if model == "dual":
        p["transition"] = float(rng.choice([0.0, 1.0, rng.uniform(0, 1)]))
    d = []
    for n in DNAMES[model]:
        s = {"k1": 0.15, "k2": 0.06, "k3": 0.03, "k4": 0.01, "k5": 0.003, "k6": 0.001,
             "p1": 0.01, "p2": 0.01, "s0": 0.01, "s1": 0.003, "s2": 0.01, "s3": 0.003}[n]
        d.append(float(rng.choice([0.0, 1.0], p=[0.1, 0.9]) * strength * rng.uniform(-s, s)))
    p["distortion"] = d
    return p


def make_camera(p, cid=None):
    from opensfm import pygeometry

    C = pygeometry.Camera
    m = p["model"]
    d = np.array(p.get("distortion", []), dtype=float)
    if m == "spherical":
        c = C.create_spherical()
    else:
        f = p["focal"]
        if m not in UNIFORM:
            ar, pp = p["aspect_ratio"], np.array([p["cx"], p["cy"]])
        if m == "perspective":
            c = C.create_perspective(f, d[0], d[1])
        elif m == "fisheye":
            c = C.create_fisheye(f, d[0], d[1])
        elif m == "dual":
            c = C.create_dual(p["transition"], f, d[0], d[1])
        elif m == "simple_radial":
            c = C.create_simple_radial(f, ar, pp, d[0])
        else:
            c = getattr(C, "create_" + m)(f, ar, pp, d)
    c.width, c.height = p["width"], p["height"]
    if cid is not None:
        c.id = cid
    return c


def distort(p, xn, yn):
    """The documented distortion of (normalized) coordinates."""
    m = p["model"]
    d = dict(zip(DNAMES[m], p["distortion"]))
    r2 = xn * xn + yn * yn
    radial = 1.0
    for i in range(1, 7):
        radial = radial + d.get("k%d" % i, 0.0) * r2**i
    u, v = xn * radial, yn * radial
    if "p1" in d:
        u = u + 2 * d["p1"] * xn * yn + d["p2"] * (r2 + 2 * xn * xn)
        v = v + 2 * d["p2"] * xn * yn + d["p1"] * (r2 + 2 * yn * yn)
    if "s0" in d:
        u = u + d["s0"] * r2 + d["s1"] * r2**2
        v = v + d["s2"] * r2 + d["s3"] * r2**2
    return u, v


def reference_project(p, X):
    """Documented projection (doc/source/geometry.rst) of points X (n x 3)."""
    X = np.asarray(X, dtype=float).reshape(-1, 3)
    x, y, z = X.T
    m = p["model"]
    if m == "spherical":
        lon = np.arctan2(x, z)
        lat = np.arctan2(-y, np.hypot(x, z))
        return np.stack([lon / (2 * np.pi), -lat / (2 * np.pi)], 1)

    def persp():
        return x / z, y / z

    def fish():
        r = np.hypot(x, y)
        th = np.arctan2(r, z)
        with np.errstate(all="ignore"):
            s = np.where(r > 0, th / np.where(r > 0, r, 1.0), 1.0 / z)
        return x * s, y * s

    if m in ANGULAR:
        xn, yn = fish()
    elif m == "dual":
        a, b = persp(), fish()
        t = p["transition"]
        xn, yn = t * a[0] + (1 - t) * b[0], t * a[1] + (1 - t) * b[1]
    else:
        xn, yn = persp()
    u, v = distort(p, xn, yn)
    f = p["focal"]
    if m in UNIFORM:
        return np.stack([f * u, f * v], 1)
    return np.stack([f * u + p["cx"], f * p["aspect_ratio"] * v + p["cy"]], 1)


def max_radius(p, limit, margin=0.35, ratio=None):
    """Largest normalized (pre-distortion) radius <= limit up to which the
    distortion is comfortably one to one (and, if asked, its scale varies by
    at most a ratio)."""
    if p["model"] == "spherical":
        return limit
    rs = np.linspace(1e-3, limit, 60)
    ok = limit
    lo, hi = np.ones(len(rs)), np.ones(len(rs))
    for a in np.linspace(0, 2 * np.pi, 12, endpoint=False):
        x, y = rs * np.cos(a), rs * np.sin(a)
        e = 1e-6
        ux = (np.array(distort(p, x + e, y)) - np.array(distort(p, x - e, y))) / (2 * e)
        uy = (np.array(distort(p, x, y + e)) - np.array(distort(p, x, y - e))) / (2 * e)
        for i in range(len(rs)):
            s = np.linalg.svd(np.array([ux[:, i], uy[:, i]]), compute_uv=False)
            lo[i], hi[i] = min(lo[i], s[1]), max(hi[i], s[0])
            if s[1] < margin or s[0] > 4:
                ok = min(ok, rs[i - 1] if i else 0.0)
                break
    if ratio:
        bad = np.nonzero(np.maximum.accumulate(hi) / np.minimum.accumulate(lo) > ratio)[0]
        if len(bad):
            ok = min(ok, rs[bad[0] - 1] if bad[0] else 0.0)
    return ok


def rand_rotation(rng):
    q = rng.normal(size=4)
    return quat_matrix(q / np.linalg.norm(q))


def quat_matrix(q):
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def hat(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]], dtype=float)


def rodrigues(v):
    """Rotation matrix of an axis-angle vector."""
    v = np.asarray(v, dtype=float)
    a = np.linalg.norm(v)
    K = hat(v)
    if a < 1e-6:
        return np.eye(3) + K + K @ K / 2
    return np.eye(3) + np.sin(a) / a * K + (1 - np.cos(a)) / a**2 * (K @ K)


def log_rotation(R):
    from scipy.spatial.transform import Rotation

    return Rotation.from_matrix(R).as_rotvec()


def rotation_angle(R):
    """Angle of a rotation matrix, accurate near 0 and pi."""
    s = np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    return np.arctan2(s, (np.trace(R) - 1) / 2)


def look_at(eye, target, up=(0, 0, 1)):
    """World-to-camera rotation of a camera at eye looking at target (x right, y down)."""
    z = np.asarray(target, float) - eye
    z /= np.linalg.norm(z)
    x = np.cross(z, up)
    if np.linalg.norm(x) < 1e-6:
        x = np.cross(z, (0, 1, 0))
    x /= np.linalg.norm(x)
    return np.array([x, np.cross(z, x), z])
