"""C01: camera models project as documented and invert."""
import numpy as np

import gen

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pygeometry"]
REQUIRED = ["case:model", "points projected", "points unprojected", "pixel conversions", "camera mappings"]
RULE = ("one case = one camera model with random parameters and image size, driven with points on the axis, "
        "near it, all over the field of view and (where the model allows) behind the camera; "
        "non-trivial when the distortion or projection is not the identity")
ASSUMPTIONS = ["the distortion is taken as invertible where its Jacobian's singular values stay within [0.35, 4]",
               "for models with more than two distortion coefficients, also where they vary by less than a factor 1.7",
               "inverse projection is iterative; agreement is demanded to 2e-5 in direction",
               "IEEE double arithmetic"]


def safe_radius(p, limit):
    """Radius up to which the distortion, and the iterations that invert it
    (which start from the distorted position), stay where the distortion is
    one to one and, for polynomials that can bend more than once, where
    Newton's steps contract (its scale varies by less than a factor of two)."""
    L = gen.max_radius(p, limit, ratio=1.7 if len(p["distortion"]) > 2 else None)
    a = np.linspace(0, 2 * np.pi, 12, endpoint=False)
    for f in np.linspace(0.95, 0.1, 18):
        x, y = f * L * np.cos(a), f * L * np.sin(a)
        u, v = gen.distort(p, x, y)
        if np.hypot(u, v).max() <= 0.95 * L and np.hypot(u - x, v - y).max() + f * L <= L:
            return f * L
    return 0.05 * L


def directions(rng, p, n):
    """Points in the invertible field of view of the model, and that of the formulas alone."""
    m = p["model"]
    if m == "spherical":
        d = rng.normal(size=(n, 3))
        d[:6] = [[0, 0, 1], [0, 1e-3, 1], [1, 0, 0], [-1, 0, 0.0], [0.1, -1, 0.1], [0.1, 0, -1]]
        return d / np.linalg.norm(d, axis=1)[:, None], None
    if m in gen.ANGULAR:
        lim = safe_radius(p, 3.0)
        th = rng.uniform(0, lim, n)
        th[10:12] = [lim * 0.999, lim * 0.99]
    elif m == "dual":
        # radius as a function of theta grows without bound towards pi/2
        lim = safe_radius(p, 1.8)
        t = p["transition"]
        ths = np.linspace(0, 1.4, 400)
        ok = ths[(t * np.tan(ths) + (1 - t) * ths) <= lim]
        lim = ok[-1]
        th = rng.uniform(0, lim, n)
    else:
        lim = safe_radius(p, 1.8)
        th = np.arctan(rng.uniform(0, lim, n))
        lim = np.arctan(lim)
    th[0] = 0.0
    th[1] = 1e-12
    th[2] = 1e-9
    th[3] = 1e-7
    th[4] = 1e-4
    th[5] = lim
    a = rng.uniform(0, 2 * np.pi, n)
    a[6:10] = [0, np.pi / 2, np.pi, -np.pi / 2]
    return np.stack([np.sin(th) * np.cos(a), np.sin(th) * np.sin(a), np.cos(th)], 1), lim


def one_model(chk, rng, p):
    m = p["model"]
    cam = gen.make_camera(p)
    n = 60
    dirs, lim = directions(rng, p, n)
    depth = np.exp(rng.uniform(-7, 9, n))
    X = dirs * depth[:, None]
    chk.case("model", p, sig=(m, p.get("focal"), p.get("distortion"), p["width"]))
    got = cam.project_many(X)
    ref = gen.reference_project(p, X)
    chk.count("points projected", n)
    chk.extreme("projection error " + m, np.abs(got - ref).max())
    chk.close(got, ref, 1e-9, m + ": project_many against the documented formula", params=p)
    one = np.array([cam.project(x) for x in X])
    chk.close(one, got, 0, m + ": project_many against project")
    if m in gen.ANGULAR or m == "spherical":
        # the documented formulas also cover points behind the image plane
        Y = rng.normal(size=(30, 3))
        chk.close(cam.project_many(Y), gen.reference_project(p, Y), 1e-8,
                  m + ": projection outside the image", params=p, rel=True)
    else:
        Y = rng.normal(size=(30, 3))
        Y[:, 2] = np.abs(Y[:, 2]) + 0.5
        chk.close(cam.project_many(Y), gen.reference_project(p, Y), 1e-8,
                  m + ": projection far from the axis", params=p, rel=True)

    back = cam.pixel_bearing_many(got)
    chk.count("points unprojected", n)
    chk.close(np.linalg.norm(back, axis=1), np.ones(n), 1e-9, m + ": length of the viewing direction", params=p)
    err = np.linalg.norm(np.cross(back, dirs), axis=1) + (np.einsum("ij,ij->i", back, dirs) <= 0)
    chk.extreme("direction error " + m, err.max())
    i = int(err.argmax())
    chk.expect(err[i] < 2e-5, m + ": the viewing direction of the projection is not the point's direction",
               params=p, point=X[i], projected=got[i], bearing=back[i], error=err[i])
    one = np.array([cam.pixel_bearing(x) for x in got])
    chk.close(one, back, 0, m + ": pixel_bearing_many against pixel_bearing")
    # and the other way round, for positions in the image
    again = cam.project_many(back)
    chk.close(again, got, 1e-4, m + ": projecting the viewing direction of an image position", params=p)

    # parameters are what was given
    if m != "spherical":
        chk.close(cam.focal, p["focal"], 0, m + ": focal")
        chk.close(cam.distortion, p["distortion"], 0, m + ": distortion")
        for name, v in zip(gen.DNAMES[m], p["distortion"]):
            chk.close(getattr(cam, name), v, 0, m + ": " + name)
        if m not in gen.UNIFORM:
            chk.close(cam.aspect_ratio, p["aspect_ratio"], 0, m + ": aspect ratio")
            chk.close(cam.principal_point, [p["cx"], p["cy"]], 0, m + ": principal point")
    chk.expect(cam.projection_type == m, m + ": projection type", got=cam.projection_type)
    types, values = cam.get_parameters_types(), cam.get_parameters_values()
    mp = cam.get_parameters_map()
    chk.expect(len(types) == len(values) and all(mp[t] == v for t, v in zip(types, values)),
               m + ": parameter map disagrees with the parameter list")

    # setting parameters one by one, or all together, is the same as creating with them
    q = gen.camera_params(rng, m, size=(p["width"], p["height"]))
    if m != "spherical":
        other = gen.make_camera(q)
        cam2 = gen.make_camera(p)
        cam2.focal = q["focal"]
        cam2.distortion = np.array(q["distortion"])
        if m not in gen.UNIFORM:
            cam2.aspect_ratio = q["aspect_ratio"]
            cam2.principal_point = np.array([q["cx"], q["cy"]])
        if m == "dual":
            cam2.transition = q["transition"]
        chk.close(cam2.project_many(X), other.project_many(X), 0, m + ": projection after setting the parameters", params=p, to=q)
        cam3 = gen.make_camera(p)
        for t in rng.permutation(len(types)):
            cam3.set_parameter_value(types[t], other.get_parameters_values()[t])
        chk.close(cam3.get_parameters_values(), other.get_parameters_values(), 0, m + ": set_parameter_value")
        cam4 = gen.make_camera(p)
        cam4.set_parameters_values(other.get_parameters_values())
        chk.close(cam4.project_many(X), other.project_many(X), 0, m + ": set_parameters_values")

    # intrinsic matrix
    if m != "spherical":
        f = p["focal"]
        K = np.array([[f, 0, p.get("cx", 0)], [0, f * p.get("aspect_ratio", 1.0), p.get("cy", 0)], [0, 0, 1.0]])
        chk.close(cam.get_K(), K, 1e-12, m + ": intrinsic matrix", params=p)
        w, h = int(rng.integers(1, 5000)), int(rng.integers(1, 5000))
        for w, h in ((p["width"], p["height"]), (w, h)):
            s = max(w, h)
            H = np.array([[s, 0, w / 2.0], [0, s, h / 2.0], [0, 0, 1.0]])
            chk.close(cam.get_K_in_pixel_coordinates(w, h), H @ K, 1e-8, m + ": intrinsic matrix in pixels", params=p, size=(w, h))

    pixels(chk, rng, p, cam)
    if chk.rng.random() < 0.5:
        mapping(chk, rng, p, cam, lim)


def pixels(chk, rng, p, cam):
    w, h = p["width"], p["height"]
    s = max(w, h)
    px = np.concatenate([rng.uniform(-0.5, 1, (20, 2)) * [w, h],
                         [[0, 0], [w - 1, h - 1], [(w - 1) / 2, (h - 1) / 2], [-0.5, -0.5]]])
    ref = (px - [(w - 1) / 2.0, (h - 1) / 2.0]) / s
    C = type(cam)
    chk.count("pixel conversions", len(px))
    chk.close(cam.pixel_to_normalized_coordinates_many(px), ref, 1e-12, "pixel to normalized coordinates", size=(w, h))
    chk.close(C.pixel_to_normalized_coordinates_many_common(px, w, h), ref, 1e-12, "pixel to normalized coordinates (common)", size=(w, h))
    chk.close([cam.pixel_to_normalized_coordinates(x) for x in px], ref, 1e-12, "pixel to normalized coordinates (one)", size=(w, h))
    chk.close([C.pixel_to_normalized_coordinates_common(x, w, h) for x in px], ref, 1e-12, "pixel to normalized (one, common)", size=(w, h))
    tol = 1e-12 * s
    chk.close(cam.normalized_to_pixel_coordinates_many(ref), px, tol, "normalized to pixel coordinates", size=(w, h))
    chk.close(C.normalized_to_pixel_coordinates_many_common(ref, w, h), px, tol, "normalized to pixel coordinates (common)", size=(w, h))
    chk.close([cam.normalized_to_pixel_coordinates(x) for x in ref], px, tol, "normalized to pixel coordinates (one)", size=(w, h))
    chk.close([C.normalized_to_pixel_coordinates_common(x, w, h) for x in ref], px, tol, "normalized to pixel (one, common)", size=(w, h))
    from opensfm import features

    chk.close(features.normalized_image_coordinates(px, w, h), ref, 1e-12, "features.normalized_image_coordinates", size=(w, h))
    chk.close(features.denormalized_image_coordinates(ref, w, h), px, tol, "features.denormalized_image_coordinates", size=(w, h))


def mapping(chk, rng, p, cam, lim):
    """The pixel mapping between two cameras is project(bearing(.)) on pixel centres."""
    from opensfm import pygeometry

    if p["model"] == "spherical":
        return
    w, h = (24, 17) if rng.random() < 0.5 else (15, 22)
    half = 0.9 * np.tan(min(lim, 1.0)) if lim else 0.5
    # a pinhole whose corners are inside the invertible field of view
    f = np.hypot(w, h) / max(w, h) / 2 / max(half, 1e-3)
    pin = pygeometry.Camera.create_perspective(f, 0.0, 0.0)
    m1, m2 = pygeometry.compute_camera_mapping(cam, pin, w, h)
    chk.count("camera mappings")
    u, v = np.meshgrid(np.arange(w), np.arange(h))
    s = max(w, h)
    xn = (u - (w - 1) / 2.0) / s / f
    yn = (v - (h - 1) / 2.0) / s / f
    pr = gen.reference_project(p, np.stack([xn.ravel(), yn.ravel(), np.ones(w * h)], 1)) * s + [(w - 1) / 2.0, (h - 1) / 2.0]
    chk.close(m1, pr[:, 0].reshape(h, w), 1e-3, "camera mapping, horizontal", params=p, size=(w, h), focal=f)
    chk.close(m2, pr[:, 1].reshape(h, w), 1e-3, "camera mapping, vertical", params=p, size=(w, h), focal=f)


def run(chk):
    for i in range(chk.n(6000, 100000)):
        rng = chk.rng_for("model", i)
        model = gen.MODELS[i % len(gen.MODELS)]
        one_model(chk, rng, gen.camera_params(rng, model, strength=float(rng.choice([0.2, 1.0, 2.0]))))
