"""C02: analytic derivatives equal numerical differentiation."""
import numpy as np

import gen

SHARDS = {"quick": 8, "thorough": 8}
TARGETS = ["pygeometry", "vprobe"]
REQUIRED = ["case:functor", "case:composition", "case:residual", "case:point jacobian", "case:covariance",
            "jacobian entries", "case:small angle"]
RULE = ("one case = one function (distortion, projection, affine, pose, normalization, whole camera, camera after a "
        "pose, camera after a rig, or a reprojection residual) at a random point and random parameters; every entry "
        "of its Jacobian is compared; points near the optical axis and poses at or near the identity are included")
ASSUMPTIONS = ["numerical derivatives: fourth-order central differences, step 1e-4 relative to the argument scale",
               "agreement to 1e-6 relative (2e-4 within 1e-3 of a removable singularity)"]

SIZES = {  # in, params, out
    "Disto2": (2, 1, 2), "Disto24": (2, 2, 2), "Disto2468": (2, 4, 2), "Disto62": (2, 8, 2), "Disto624": (2, 12, 2),
    "DistoBrown": (2, 5, 2), "Affine": (2, 4, 2), "UniformScale": (2, 1, 2), "Identity": (2, 0, 2),
    "PoseFunctor": (3, 6, 3), "Normalize": (3, 0, 3),
    "FisheyeProjection": (3, 0, 2), "PerspectiveProjection": (3, 0, 2), "DualProjection": (3, 1, 2),
    "SphericalProjection": (3, 0, 2),
}
CAMERAS = {"perspective": "PerspectiveCamera", "simple_radial": "SimpleRadialCamera", "radial": "RadialCamera",
           "brown": "BrownCamera", "fisheye": "FisheyeCamera", "fisheye_opencv": "FisheyeOpencvCamera",
           "fisheye62": "Fisheye62Camera", "fisheye624": "Fisheye624Camera", "dual": "DualCamera",
           "spherical": "SphericalCamera"}


def numeric(f, x, h=1e-3):
    x = np.array(x, dtype=float)
    cols = []
    for i in range(len(x)):
        s = h * max(1.0, abs(x[i]))

        def at(k):
            y = x.copy()
            y[i] += k * s
            return f(y)

        cols.append((8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * s))
    return np.stack(cols, 1)


def agree(chk, jac, num, what, tol=1e-6, **data):
    chk.count("jacobian entries", num.size)
    scale = 1.0 + np.abs(num).max()
    if jac.shape != num.shape:
        chk.violation(what + ": wrong shape", None, got=jac.shape, expected=num.shape, **data)
        return
    err = np.abs(jac - num).max() / scale
    chk.extreme("largest relative difference", err)
    chk.expect(err <= tol, what + ": analytic and numerical derivatives differ by %.3g" % err, None,
               analytic=jac, numerical=num, **data)


def point(rng, near_axis=True):
    z = rng.uniform(0.8, 5)
    a = rng.uniform(0, 2 * np.pi)
    r = z * rng.choice([rng.uniform(0.05, 0.9), 0.02] if near_axis else [rng.uniform(0.05, 0.9)])
    return np.array([r * np.cos(a), r * np.sin(a), z])


def pose(rng, small=False):
    r = rng.normal(size=3)
    r *= rng.choice([rng.uniform(0.01, 3.0), rng.uniform(0.01, 0.3)]) / np.linalg.norm(r)
    return np.concatenate([r, rng.normal(size=3)])


def functor(chk, rng, name):
    import vprobe

    ni, npar, no = SIZES[name]
    if name == "PoseFunctor":
        x, p = rng.normal(size=3) * 3, pose(rng)
    elif ni == 3:
        x = point(rng)
        if name in ("FisheyeProjection", "SphericalProjection", "Normalize") and rng.random() < 0.4:
            x = rng.normal(size=3)
            x /= np.linalg.norm(x) / rng.uniform(0.8, 4)
            if np.hypot(x[0], x[1]) < 0.1 or np.hypot(x[0], x[2]) < 0.1:
                x += [0.3, 0.2, 0.3]
                if np.hypot(x[0], x[1]) < 0.1 or np.hypot(x[0], x[2]) < 0.1:
                    return
        p = rng.uniform(0, 1, npar)
    else:
        x = rng.uniform(-0.9, 0.9, 2)
        p = rng.uniform(-0.3, 0.3, npar) + (1.0 if name in ("Affine", "UniformScale") else 0)
    chk.case("functor", {"name": name, "in": x, "params": p})
    out, jac = vprobe.derivatives(name, True, x, p)
    out2, jac2 = vprobe.derivatives(name, False, x, p)
    fwd = vprobe.forward(name, x, p)
    chk.close(out, fwd, 1e-12, name + ": value returned with the derivatives", x=x, p=p)
    chk.close(out2, fwd, 1e-12, name + ": value returned with the point derivatives", x=x, p=p)
    h = 1e-3 if ni == 2 or name in ("PoseFunctor",) else 2e-4
    dx = numeric(lambda y: vprobe.forward(name, y, p), x, h)
    full = dx
    if npar:
        full = np.concatenate([dx, numeric(lambda q: vprobe.forward(name, x, q), p, h)], 1)
    agree(chk, jac, full, name, x=x, p=p)
    agree(chk, jac2, dx, name + " (point only)", x=x, p=p)


def cam_vector(p):
    return gen.make_camera(p).get_parameters_values()


def composition(chk, rng, model):
    import vprobe
    from opensfm import pygeometry

    p = gen.camera_params(rng, model)
    cv = cam_vector(p)
    typ = getattr(pygeometry.ProjectionType, model.upper())
    cname = CAMERAS[model]
    rig = rng.random() < 0.4
    inst, rcam = pose(rng), pose(rng)
    if rng.random() < 0.2:
        inst[:3] = 0
    Xc = point(rng)
    # world point that lands on Xc
    X = Xc
    if rig:
        X = gen.rodrigues(rcam[:3]) @ X + rcam[3:]
    X = gen.rodrigues(inst[:3]) @ X + inst[3:]
    chk.case("composition", {"camera": p, "rig": rig, "instance": inst, "rig_camera": rcam, "point": X})

    def transform(X, inst, rcam=None):
        Y = gen.rodrigues(inst[:3]).T @ (X - inst[3:])
        if rcam is not None:
            Y = gen.rodrigues(rcam[:3]).T @ (Y - rcam[3:])
        return Y

    # the camera alone (a panorama has no parameters to derive by)
    if model != "spherical":
        out, jac = vprobe.dispatched("project", typ, Xc, cv, 2, 3 + len(cv))
        chk.close(out, gen.reference_project(p, Xc)[0], 1e-9, model + ": projection returned with derivatives")
        dx = numeric(lambda y: vprobe.forward(cname, y, cv), Xc, 2e-4)
        dp = numeric(lambda q: vprobe.forward(cname, Xc, q), cv, 1e-3)
        agree(chk, jac, np.concatenate([dx, dp], 1), model + " camera", params=p, point=Xc)

    # after one pose: x | pose | camera
    if rig:
        blocks = [X, inst, rcam]
        fn = lambda b: vprobe.forward(cname, transform(b[0], b[1], b[2]), b[3])
    else:
        blocks = [X, inst]
        fn = lambda b: vprobe.forward(cname, transform(b[0], b[1]), b[-1])
    blocks = blocks + [cv]
    nums = []
    for k in range(len(blocks) - (1 if model == "spherical" else 0)):
        nums.append(numeric(lambda q: fn(blocks[:k] + [q] + blocks[k + 1:]), blocks[k], 2e-4))
    num = np.concatenate(nums, 1)
    if model != "spherical":
        out, jac = vprobe.dispatched("rig" if rig else "pose", typ, X, np.concatenate(blocks[1:]), 2, num.shape[1])
        chk.close(out, gen.reference_project(p, Xc)[0], 1e-8, model + ": projection through the pose")
        agree(chk, jac, num, model + (" camera after a rig" if rig else " camera after a pose"), 3e-6, params=p, blocks=blocks)
    if not rig:
        out, jac = vprobe.dispatched("pose_point", typ, X, np.concatenate(blocks[1:]), 2, 3)
        agree(chk, jac, num[:, :3], model + " camera after a pose, by point", 3e-6, params=p, blocks=blocks)
    if model == "spherical":
        nrm = lambda b: (lambda Y: Y / np.linalg.norm(Y))(transform(*b[:-1]))
        num = np.concatenate([numeric(lambda q: nrm(blocks[:k] + [q] + blocks[k + 1:]), blocks[k], 2e-4)
                              for k in range(len(blocks) - 1)], 1)
        out, jac = vprobe.dispatched("rig_normalized" if rig else "pose_normalized", typ, X,
                                     np.concatenate(blocks[1:-1]), 3, num.shape[1])
        agree(chk, jac, num, "bearing after " + ("a rig" if rig else "a pose"), 3e-6, blocks=blocks)


def residual(chk, rng, model):
    import vprobe
    from opensfm import pygeometry

    p = gen.camera_params(rng, model)
    cv = cam_vector(p)
    typ = getattr(pygeometry.ProjectionType, model.upper())
    rig = bool(rng.random() < 0.5)
    inst, rcam = pose(rng), pose(rng)
    k = rng.random()
    if k < 0.15:
        inst[:3] = 0.0
    elif k < 0.25:
        rcam[:] = 0.0
    Xc = point(rng)
    X = Xc
    if rig:
        X = gen.rodrigues(rcam[:3]) @ X + rcam[3:]
    X = gen.rodrigues(inst[:3]) @ X + inst[3:]
    obs = gen.reference_project(p, Xc)[0] + rng.normal(size=2) * 0.01
    sigma = float(rng.uniform(0.001, 2.0))
    blocks = [cv, inst, rcam, X]
    chk.case("residual", {"camera": p, "rig": rig, "blocks": blocks, "observed": obs, "sigma": sigma})

    def value(b):
        Y = gen.rodrigues(b[1][:3]).T @ (b[3] - b[1][3:])
        if rig:
            Y = gen.rodrigues(b[2][:3]).T @ (Y - b[2][3:])
        if model == "spherical":
            lon, lat = obs[0] * 2 * np.pi, -obs[1] * 2 * np.pi
            o = np.array([np.cos(lat) * np.sin(lon), -np.sin(lat), np.cos(lat) * np.cos(lon)])
            return (Y / np.linalg.norm(Y) - o) / sigma
        return (vprobe.forward(CAMERAS[model], Y, b[0]) - obs) / sigma

    for analytic in (True, False):
        r0, r, jac = vprobe.reprojection(analytic, typ, obs, sigma, rig, blocks)
        kind = model + (" analytic" if analytic else " automatic") + " residual"
        ref = value(blocks)
        chk.close(r, ref, 1e-8, kind, rel=True, blocks=blocks)
        chk.close(r0, ref, 1e-8, kind + " without derivatives", rel=True, blocks=blocks)
        for i, name in enumerate(("camera", "rig instance", "rig camera", "point")):
            num = numeric(lambda q: value(blocks[:i] + [q] + blocks[i + 1:]), blocks[i], 2e-4)
            if i == 0 and model == "spherical":
                num = np.zeros_like(num)
            agree(chk, jac[i], num, "%s by %s" % (kind, name), 5e-6, camera=p, blocks=blocks, rig=rig)


def small_angle(chk, rng):
    """Poses whose rotation is the identity or within rounding of it."""
    import vprobe

    a = float(rng.choice([0.0, 1e-12, 1e-9, 1.4e-8, 1.6e-8, 1e-7, 1e-5, 1e-3]))
    d = rng.normal(size=3)
    p = np.concatenate([a * d / np.linalg.norm(d), rng.normal(size=3)])
    x = rng.normal(size=3) * 3
    chk.case("small angle", {"angle": a, "pose": p, "point": x})
    out, jac = vprobe.derivatives("PoseFunctor", True, x, p)
    ref = gen.rodrigues(p[:3]).T @ (x - p[3:])
    chk.close(out, ref, 1e-9, "transformed point near the identity", pose=p)
    R = gen.rodrigues(p[:3]).T
    y = x - p[3:]
    # d/dr of R(-r) y at r ~ 0 is hat(y)
    num = np.concatenate([R, gen.hat(y), -R], 1)
    agree(chk, jac, num, "pose derivatives near the identity", 3e-7 + 3 * a, pose=p, point=x, angle=a)
    out, jac = vprobe.derivatives("PoseFunctor", False, x, p)
    agree(chk, jac, R, "pose derivatives by point near the identity", 3e-7, pose=p, point=x, angle=a)


def axis(chk, rng):
    """On and around the optical axis the fisheye projections behave like a pinhole."""
    import vprobe

    z = rng.uniform(0.5, 4)
    r = float(rng.choice([0.0, 1e-12, 1e-9, 1e-6, 1e-4]))
    a = rng.uniform(0, 2 * np.pi)
    x = np.array([r * np.cos(a), r * np.sin(a), z])
    name = ["FisheyeProjection", "PerspectiveProjection", "DualProjection"][rng.integers(3)]
    p = rng.uniform(0, 1, SIZES[name][1])
    chk.case("axis", {"name": name, "in": x})
    _, jac = vprobe.derivatives(name, False, x, p)
    ref = np.array([[1 / z, 0, -x[0] / z**2], [0, 1 / z, -x[1] / z**2]])
    agree(chk, jac, ref, name + " near the optical axis", 1e-6 + 10 * r * r, x=x, p=p)


def point_jacobian(chk, rng, model):
    import vprobe
    from opensfm import pygeometry

    p = gen.camera_params(rng, model)
    c = gen.make_camera(p)
    v = pose(rng)
    R = gen.rodrigues(v[:3]).T
    ps = pygeometry.Pose(R, -R @ v[3:])
    Xc = point(rng)
    X = R.T @ Xc + v[3:]
    obs = rng.normal(size=2) * 0.1
    chk.case("point jacobian", {"camera": p, "pose": v, "point": X})
    jac, res = vprobe.point_jacobian(c, ps, obs, X)
    agree(chk, jac, numeric(lambda y: c.project(ps.transform(y)), X, 2e-4), model + ": Jacobian of the projection by point", 3e-6)
    chk.close(res, obs - c.project(ps.transform(X)), 1e-9, "residual returned with the point Jacobian")
    # inverse covariance accumulates J'J over the views
    n = int(rng.integers(1, 5))
    cams, poses, os_ = [], [], []
    want, s2 = np.zeros((3, 3)), 0.0
    for _ in range(n):
        q = gen.camera_params(rng, model)
        cc = gen.make_camera(q)
        Rr = gen.look_at(X + rng.normal(size=3) * 0.3 + np.array([2, 1, 1.0]), X)
        o = X - Rr.T @ point(rng, False)
        pp = pygeometry.Pose(Rr, -Rr @ o)
        ob = cc.project(pp.transform(X)) + rng.normal(size=2) * 0.01
        J = numeric(lambda y: cc.project(pp.transform(y)), X, 2e-4)
        want += J.T @ J
        s2 += ((ob - cc.project(pp.transform(X))) ** 2).sum()
        cams.append(cc)
        poses.append(pp)
        os_.append(ob)
    chk.case("covariance", {"views": n, "model": model})
    got, sigma2 = vprobe.point_inverse_covariance(cams, poses, np.array(os_), X)
    chk.close(got, want, 1e-5 * (1 + np.abs(want).max()), "inverse covariance of a point")
    chk.close(sigma2, s2 / n, 1e-9, "variance of the observations of a point")


def run(chk):
    for i in range(chk.n(9600, 100000)):
        functor(chk, chk.rng_for("f", i), sorted(SIZES)[i % len(SIZES)])
    for i in range(chk.n(6400, 60000)):
        composition(chk, chk.rng_for("c", i), gen.MODELS[i % 10])
    for i in range(chk.n(6400, 60000)):
        residual(chk, chk.rng_for("r", i), gen.MODELS[i % 10])
    for i in range(chk.n(3200, 20000)):
        small_angle(chk, chk.rng_for("s", i))
        axis(chk, chk.rng_for("a", i))
    for i in range(chk.n(1600, 20000)):
        point_jacobian(chk, chk.rng_for("p", i), gen.MODELS[i % 10])
