"""C27: native code is free of memory errors and undefined behaviour.

The deciding step is AddressSanitizer and UndefinedBehaviorSanitizer (with the C++
and Eigen assertions on) watching every native module while it is called with
ordinary, degenerate, malformed and random arguments and with histories of edits.
A refused call has to raise; a call that ends the process is the violation."""
import gc
import os
import random
import time

import numpy as np

import gen
import scenes

VARIANT = "asan"
SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 600, "thorough": 850}
RULE = ("one case = one call (or one history of edits) of the native API with arguments drawn from ordinary, empty, single, repeated, "
        "collinear, huge, tiny, non-finite and wrongly shaped data, or one workload of another property, run under AddressSanitizer "
        "and UndefinedBehaviorSanitizer; non-trivial = the call reached native code")
ASSUMPTIONS = ["reads of uninitialised values are watched only as far as they reach a branch the sanitizers see (gcc has no memory sanitizer)",
               "sizes are bounded so that no call needs more than a few hundred megabytes",
               "handles of things removed from a map are not used afterwards (the documentation does not promise them)"]
MODELS = ["perspective", "simple_radial", "radial", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "dual", "spherical"]


class Hostile:
    """Arguments: mostly well formed with odd values, sometimes malformed."""

    def __init__(self, rng):
        self.rng = rng
        self.r = random.Random(int(rng.integers(1 << 60)))
        self.shape = self.r.random() < 0.3
        self.level = self.r.choice([0, 0, 1, 2, 3])

    def p(self, q):
        return self.r.random() < q

    def pick(self, xs):
        return self.r.choice(list(xs))

    def size(self, top=60):
        return self.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 30, top])

    def like(self, n):
        """n, or another size when shapes are being attacked."""
        if self.shape and self.p(0.5):
            return self.pick([0, 1, max(0, n - 1), n + 1, 2 * n, n + 7])
        return n

    def scalar(self):
        if self.level == 0:
            return float(self.rng.normal())
        return float(self.pick([0.0, 1.0, -1.0, 1e-300, 1e-12, 1e12, 1e300, -1e300, 0.5, 3.7, 180.0, 90.0]
                               + ([float("nan"), float("inf"), -float("inf")] if self.level > 1 else [])))

    def positive(self):
        return abs(self.scalar()) if self.level else float(self.rng.uniform(0.01, 2))

    def integer(self):
        return int(self.pick([0, 1, 2, 3, 7, 10, 100, -1, -7, 2**31 - 1, -2**31] if self.level else [0, 1, 2, 5, 9]))

    def array(self, *shape, unit=False):
        g, n = self.rng, int(np.prod(shape)) if shape else 1
        mode = self.pick(["plain"] * 4 + (["zero", "ones", "same", "line", "int", "huge", "tiny"] if self.level else [])
                         + (["nan", "inf", "allnan"] if self.level > 1 else []))
        a = g.normal(size=shape)
        if mode == "zero":
            a = np.zeros(shape)
        elif mode == "ones":
            a = np.ones(shape)
        elif mode == "same" and n and len(shape) > 1:
            a = np.repeat(a[:1], shape[0], 0)
        elif mode == "line" and n and len(shape) > 1:
            a = a[:1] * g.normal(size=(shape[0],) + (1,) * (len(shape) - 1))
        elif mode == "int":
            a = np.round(a * 3)
        elif mode == "huge":
            a = a * self.pick([1e9, 1e30, 1e150, 1e300])
        elif mode == "tiny":
            a = a * self.pick([1e-9, 1e-30, 1e-300])
        if mode == "allnan":
            a = np.full(shape, np.nan)
        if mode in ("nan", "inf") and n:
            k = g.random(shape) < 0.2
            a = np.where(k, np.nan if mode == "nan" else g.choice([np.inf, -np.inf], size=shape), a)
        if unit and mode in ("plain", "same", "line", "int") and n:
            with np.errstate(all="ignore"):
                a = a / np.linalg.norm(a, axis=-1, keepdims=True)
        return a

    def layout(self, a):
        """The same values in another memory layout or type."""
        k = self.r.random()
        if k < 0.7:
            return np.ascontiguousarray(a)
        if k < 0.8:
            return np.asfortranarray(a)
        if k < 0.87:
            b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
            v = b[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        if k < 0.93:
            return a[::-1] if a.ndim else a
        if not self.shape:
            return a
        return self.pick([a.reshape(-1), a[None], a.astype(np.float32) if a.dtype.kind == "f" else a, a[..., None], np.zeros(0), np.zeros((0, 0)),
                          a.tolist(), None])

    def rotation(self):
        return gen.rand_rotation(self.rng) if self.p(0.7) else self.array(3, 3)

    def bearings(self, n):
        return self.layout(self.array(n, 3, unit=self.p(0.8)))

    def text(self):
        return self.pick(["", "a", "b", "c", "im1", "im2", "\x00", "a\tb", "x" * 300, "é", " "])

    def pose(self):
        from opensfm import pygeometry

        if self.p(0.6):
            p = pygeometry.Pose(gen.rand_rotation(self.rng), self.rng.normal(size=3))
        else:
            p = pygeometry.Pose(self.array(3), self.array(3))
        return p

    def camera(self, cid="cam"):
        c = gen.make_camera(gen.camera_params(self.rng, self.pick(MODELS), strength=self.pick([0.1, 1.0])), cid)
        if self.level > 1:
            for k in list(c.get_parameters_map())[: self.r.randint(0, 3)]:
                c.set_parameter_value(k, self.scalar())
            if self.p(0.3):
                c.width, c.height = self.pick([(0, 0), (1, 1), (-5, 3), (2**31 - 1, 2), (640, 480)])
        return c


# ------------------------------------------------------------------ the calls
def f_words(h):
    from opensfm import pyfeatures

    n, m, d, k = h.size(), h.size(), h.pick([0, 1, 2, 16, 128]), h.pick([0, 1, 2, 5])
    f1, f2 = h.array(n, d).astype(np.float32), h.array(m, h.like(d)).astype(np.float32)
    w1 = h.rng.integers(-1 if h.p(0.2) else 0, 4, size=(h.like(n), k)).astype(np.int32)
    w2 = h.rng.integers(0, 4, size=(h.like(m), h.pick([1, 1, 1, k]))).astype(np.int32)
    return pyfeatures.match_using_words(h.layout(f1), h.layout(w1), h.layout(f2), h.layout(w2), float(h.pick([0.8, 0, 1, -1, float("nan"), 2])),
                                        h.pick([0, 1, 20, -1, 2**31 - 1]))


def f_vlad(h):
    from opensfm import pyfeatures

    n, m, d = h.size(), h.pick([0, 1, 2, 16, 64]), h.pick([0, 1, 2, 16])
    return pyfeatures.compute_vlad_descriptor(h.layout(h.array(n, d).astype(np.float32)), h.layout(h.array(m, h.like(d)).astype(np.float32)))


def f_vlad_distances(h):
    from opensfm import pyfeatures

    names = ["a", "b", "c", "im1", "im2"]
    d = h.size()
    hs = {k: h.array(h.like(d)).astype(np.float32) for k in names[: h.r.randint(0, 5)]}
    return pyfeatures.compute_vlad_distances(hs, h.pick(names), set(h.r.sample(names, h.r.randint(0, 5))))


def picture(h, top=100):
    H, W = h.pick([0, 1, 2, 7, 15, 16, 17, 31, 40, 64, top]), h.pick([0, 1, 2, 7, 15, 16, 17, 31, 40, 64, top])
    if h.p(0.5):
        H, W = h.r.randint(17, top), h.r.randint(17, top)
    k = h.pick(["noise", "blank", "edge", "ramp", "dots"])
    im = np.zeros((H, W))
    if k == "noise":
        im = h.rng.integers(0, 256, size=(H, W))
    elif k == "blank":
        im[:] = h.pick([0, 128, 255])
    elif k == "edge":
        im[:, : W // 2] = 255
    elif k == "ramp":
        im = np.add.outer(np.arange(H) * 3.0, np.arange(W) * 2.0) % 256
    else:
        m = h.rng.random((H, W)) < 0.05
        im[m] = 255
    return im


def f_hahog(h):
    from opensfm import pyfeatures

    im = picture(h).astype(np.float32) / h.pick([255.0, 255.0, 1.0])
    if h.level > 1 and im.size:
        im = np.where(h.rng.random(im.shape) < 0.05, h.pick([np.nan, np.inf, 1e38, -1e38]), im).astype(np.float32)
    return pyfeatures.hahog(h.layout(im), h.pick([0.00001, 0.003, 0.0, 1e9, h.pick([-1.0, float("nan")])]), h.pick([10, 0, 1, 1e9, h.pick([-1, float("nan")])]),
                            h.pick([0, 1, 2, 3, 20, 1000, h.pick([-1, 10**9])]))


def f_akaze(h):
    from opensfm import pyfeatures

    o = pyfeatures.AKAZEOptions()
    o.descriptor = h.pick([pyfeatures.AkazeDescriptorType.SURF_UPRIGHT, pyfeatures.AkazeDescriptorType.SURF, pyfeatures.AkazeDescriptorType.MSURF_UPRIGHT,
                           pyfeatures.AkazeDescriptorType.MSURF, pyfeatures.AkazeDescriptorType.MLDB_UPRIGHT, pyfeatures.AkazeDescriptorType.MLDB])
    o.diffusivity = h.pick([pyfeatures.AkazeDiffusivityType.PM_G1, pyfeatures.AkazeDiffusivityType.PM_G2, pyfeatures.AkazeDiffusivityType.WEICKERT,
                            pyfeatures.AkazeDiffusivityType.CHARBONNIER])
    o.omax = h.pick([1, 2, 3, 4, 5, 8])
    o.nsublevels = h.pick([1, 2, 3, 4])
    o.target_num_features = h.pick([0, 0, 1, 5, 100, 10**6])
    o.use_adaptive_suppression = h.p(0.5)
    o.dthreshold = h.pick([0.001, 0.00001, 0.0, -1.0, 1.0])
    o.descriptor_size = h.pick([0, 0, 1, 64, 100, 200, 486])
    o.descriptor_channels = h.pick([1, 2, 3])
    o.descriptor_pattern_size = h.pick([10, 10, 3, 4, 11, 16, 1])
    o.kcontrast_percentile = h.pick([0.7, 0.0, 1.0, 0.5])
    o.kcontrast_nbins = h.pick([300, 1, 10])
    o.use_isotropic_diffusion = h.p(0.3)
    if h.level > 2:
        o.omax, o.nsublevels = h.pick([0, 1, 20]), h.pick([0, 1, 10])
        o.soffset = h.pick([1.6, 0.0, 0.1, 10.0])
        o.derivative_factor = h.pick([1.5, 0.0, 5.0])
    return pyfeatures.akaze(h.layout(picture(h, 130).astype(np.uint8)), o)


def K_of(h):
    return h.layout(np.array([[h.pick([50.0, 30.0]), 0, 15], [0, 50.0, 12], [0, 0, 1]]) if h.p(0.8) else h.array(3, 3))


def f_depth_estimator(h):
    from opensfm import pydense

    e = pydense.DepthmapEstimator()
    if h.p(0.9):
        e.set_depth_range(h.pick([1.0, 0.0, -1.0, 0.5, h.scalar()]), h.pick([10.0, 1.0, 0.5, h.scalar()]), h.pick([1, 2, 5, 10, 0, -3]))
    e.set_patchmatch_iterations(h.pick([0, 1, 2, -1]))
    e.set_patch_size(h.pick([1, 3, 5, 7, 15, h.pick([2, 0, -1])]))
    e.set_min_patch_sd(h.pick([0.0, 1.0, -1.0, 100.0, float("nan")]))
    H, W = h.pick([1, 2, 5, 11, 24, 0]), h.pick([1, 2, 5, 13, 30, 0])
    for i in range(h.pick([1, 2, 2, 3, 3, 4, 0])):
        h_, w_ = (H, W) if not h.shape else (h.like(H), h.like(W))
        im = picture(h, 40)[:1].astype(np.uint8)
        im = h.rng.integers(0, 256, size=(h_, w_)).astype(np.uint8) if h.p(0.8) else np.full((h_, w_), 7, np.uint8)
        mask = (h.rng.random((h_, w_)) < h.pick([0.9, 0.0, 1.0])).astype(np.uint8)
        t = np.array([0.3 * i, 0.02 * i, 0.0]) if h.p(0.8) else h.array(3)
        R = np.eye(3) if h.p(0.6) else h.rotation()
        e.add_view(K_of(h), h.layout(R), h.layout(t), h.layout(im), h.layout(mask))
    out = []
    for m in h.r.sample(["compute_brute_force", "compute_patch_match", "compute_patch_match_sample"], h.r.randint(1, 3)):
        out.append(getattr(e, m)())
    return out


def f_depth_cleaner(h):
    from opensfm import pydense

    c = pydense.DepthmapCleaner()
    c.set_same_depth_threshold(h.pick([0.01, 0.0, -1.0, float("nan"), 1e30]))
    c.set_min_consistent_views(h.pick([0, 1, 2, -1, 100]))
    H, W = h.pick([1, 2, 5, 11, 24, 0]), h.pick([1, 2, 5, 13, 30, 0])
    for i in range(h.pick([1, 2, 2, 3, 3, 0])):
        d = h.array(h.like(H), h.like(W)) if h.p(0.3) else np.full((h.like(H), h.like(W)), 3.0)
        c.add_view(K_of(h), h.layout(np.eye(3) if h.p(0.6) else h.rotation()), h.layout(h.array(3)), h.layout(d.astype(np.float32)))
    return c.clean()


def f_depth_pruner(h):
    from opensfm import pydense

    c = pydense.DepthmapPruner()
    c.set_same_depth_threshold(h.pick([0.01, 0.0, -1.0, float("nan"), 1e30]))
    H, W = h.pick([1, 2, 5, 11, 24, 0]), h.pick([1, 2, 5, 13, 30, 0])
    for i in range(h.pick([1, 2, 2, 3, 3, 0])):
        a, b = h.like(H), h.like(W)
        d = h.array(a, b) if h.p(0.3) else np.full((a, b), 3.0)
        c.add_view(K_of(h), h.layout(np.eye(3) if h.p(0.6) else h.rotation()), h.layout(h.array(3)), h.layout(d.astype(np.float32)),
                   h.layout(h.array(h.like(a), b, h.like(3)).astype(np.float32)), h.layout(np.zeros((a, b, h.like(3)), np.uint8)),
                   h.layout(np.zeros((a, h.like(b)), np.uint8)))
    return c.prune()


def f_openmvs(h):
    from opensfm import pydense

    e = pydense.OpenMVSExporter()
    cams, shots = ["a", "b"], ["im1", "im2", "c"]
    for c in cams[: h.pick([2, 2, 2, 2, 1, 0])]:
        e.add_camera(c, K_of(h), 640, 480)
    for s in shots[: h.pick([3, 3, 3, 3, 2, 0])]:
        e.add_shot("p", "", s, h.pick(cams), h.layout(h.rotation()), h.layout(h.array(3)))
    for i in range(h.size()):
        e.add_point(h.layout(h.array(3)), [h.pick(shots) for _ in range(h.r.randint(0, 4))])
    return e.export(os.path.join(h.tmp, "scene.mvs"))


def f_robust(h):
    from opensfm import pyrobust

    p = pyrobust.RobustEstimatorParams()
    p.iterations = h.pick([0, 1, 20, 100, -1])
    p.probability = h.pick([0.99, 0.0, 1.0, 0.5, h.scalar()])
    p.use_local_optimization = h.p(0.5)
    p.use_iteration_reduction = h.p(0.5)
    kind = h.pick([pyrobust.RansacType.RANSAC, pyrobust.RansacType.MSAC, pyrobust.RansacType.LMedS])
    n = h.size()
    t = h.pick([0.01, 0.0, 1.0, 100.0, h.scalar()])
    name = h.pick(["ransac_line", "ransac_essential", "ransac_relative_pose", "ransac_relative_rotation", "ransac_absolute_pose",
                   "ransac_absolute_pose_known_rotation", "ransac_similarity"])
    f = getattr(pyrobust, name)
    if name == "ransac_line":
        s = f(h.layout(h.array(n, 2)), t, p, kind)
    else:
        s = f(h.bearings(n), h.bearings(h.like(n)), t, p, kind)
    return s.score, s.model, s.lo_model, list(s.inliers_indices)


def f_solvers(h):
    from opensfm import pygeometry as g

    n = h.size()
    name = h.pick(["essential_five_points", "absolute_pose_three_points", "absolute_pose_n_points", "absolute_pose_n_points_known_rotation",
                   "essential_n_points", "relative_pose_from_essential", "relative_rotation_n_points", "relative_pose_refinement"])
    if h.p(0.4):
        n = {"essential_five_points": 5, "absolute_pose_three_points": 3}.get(name, n)
    a, b = h.bearings(n), h.bearings(h.like(n))
    if name == "relative_pose_from_essential":
        return g.relative_pose_from_essential(h.layout(h.array(3, 3)), a, b)
    if name == "relative_pose_refinement":
        return g.relative_pose_refinement(h.layout(np.column_stack([h.rotation(), h.array(3)])), a, b, h.pick([0, 1, 10, 100, -1]))
    return getattr(g, name)(a, b)


def f_triangulation(h):
    from opensfm import pygeometry as g

    n = h.size()
    k = h.r.randint(0, 5)
    if k == 0:
        return g.triangulate_bearings_dlt([np.column_stack([h.rotation(), h.array(3)]) for _ in range(h.like(n))], h.bearings(n), h.scalar(),
                                          h.scalar(), h.scalar())
    if k == 1:
        return g.triangulate_bearings_midpoint(h.layout(h.array(h.like(n), 3)), h.bearings(n), [h.scalar()] * h.like(n), h.scalar(), h.scalar())
    if k == 2:
        return g.triangulate_two_bearings_midpoint(h.layout(h.array(h.like(2), 3)), h.bearings(h.like(2)))
    if k == 3:
        return g.triangulate_two_bearings_midpoint_many(h.bearings(n), h.bearings(h.like(n)), h.rotation(), h.array(3))
    if k == 4:
        return g.epipolar_angle_two_bearings_many(h.bearings(n), h.bearings(h.like(n)), h.rotation(), h.array(3))
    return g.point_refinement(h.layout(h.array(h.like(n), 3)), h.bearings(n), h.array(3), h.pick([0, 1, 10, -1]))


def f_camera(h):
    from opensfm import pygeometry as g

    c = h.camera()
    n = h.size()
    out = []
    for _ in range(6):
        k = h.r.randint(0, 13)
        try:
            if k == 0:
                out.append(c.project(h.array(h.like(3))))
            elif k == 1:
                out.append(c.project_many(h.layout(h.array(n, h.like(3)))))
            elif k == 2:
                out.append(c.pixel_bearing(h.array(h.like(2))))
            elif k == 3:
                out.append(c.pixel_bearing_many(h.layout(h.array(n, h.like(2)))))
            elif k == 4:
                out.append((c.get_K(), c.get_K_in_pixel_coordinates(h.integer(), h.integer())))
            elif k == 5:
                c.set_parameters_values(h.array(h.like(len(c.get_parameters_values()))))
            elif k == 6:
                ts = h.camera().get_parameters_types()
                if ts:
                    c.set_parameter_value(h.pick(ts), h.scalar())
            elif k == 7:
                out.append(g.compute_camera_mapping(c, h.camera(), h.pick([0, 1, 5, 20]), h.pick([0, 1, 5, 20])))
            elif k == 8:
                out.append(c.pixel_to_normalized_coordinates_many(h.layout(h.array(n, 2))))
                out.append(c.normalized_to_pixel_coordinates_many(h.layout(h.array(n, 2))))
            elif k == 9:
                out.append([getattr(c, a) for a in ("k1", "k2", "k3", "k4", "p1", "p2", "focal", "aspect_ratio", "transition", "distortion", "principal_point")])
            elif k == 10:
                c.principal_point = h.array(h.like(2))
            elif k == 11:
                c.distortion = h.array(h.like(max(1, len(c.distortion))))
            elif k == 12:
                import copy
                import pickle

                c = pickle.loads(pickle.dumps(copy.deepcopy(c)))
            else:
                out.append(g.Camera.is_panorama(h.text()))
        except Exception:
            pass
    g_ = h.pick(["create_perspective", "create_brown", "create_fisheye", "create_fisheye_opencv", "create_fisheye62", "create_fisheye624",
                 "create_dual", "create_spherical", "create_radial", "create_simple_radial"])
    f = getattr(g.Camera, g_)
    if g_ in ("create_perspective", "create_fisheye", "create_simple_radial"):
        c = f(h.scalar(), h.scalar(), h.scalar()) if g_ != "create_simple_radial" else f(h.scalar(), h.scalar(), h.array(2), h.scalar())
    elif g_ == "create_spherical":
        c = f()
    elif g_ == "create_dual":
        c = f(h.scalar(), h.scalar(), h.scalar(), h.scalar())
    elif g_ == "create_radial":
        c = f(h.scalar(), h.scalar(), h.array(2), h.array(h.like(2)))
    else:
        c = f(h.scalar(), h.scalar(), h.array(2), h.array(h.like({"create_brown": 5, "create_fisheye_opencv": 4, "create_fisheye62": 8, "create_fisheye624": 12}[g_])))
    return out, c.project(h.array(3)), c.pixel_bearing(h.array(2))


def f_pose(h):
    from opensfm import pygeometry as g

    p, q = h.pose(), h.pose()
    n = h.size()
    s = g.Similarity(h.array(3), h.array(3), h.scalar())
    return [p.compose(q), p.relative_to(q), p.inverse(), p.get_origin(), p.get_Rt(), p.transform_many(h.layout(h.array(n, h.like(3)))),
            p.transform_inverse_many(h.layout(h.array(n, 3))), p.get_R_cam_to_world_min(), s.transform(h.array(3)), s.inverse(), p.is_identity(1e-3)]


def f_geo(h):
    from opensfm import pygeo as g

    a, b = h.array(3), h.array(3)
    c = g.TopocentricConverter(h.scalar(), h.scalar(), h.scalar())
    return [g.ecef_from_lla(a), g.lla_from_ecef(a), g.ecef_from_topocentric_transform(a), g.ecef_from_topocentric_transform_finite_diff(a),
            g.topocentric_from_lla(a, b), g.lla_from_topocentric(a, b), g.gps_distance(h.array(2), h.array(2)), c.lat,
            g.gps_distance(h.array(h.like(2)), h.array(2))]


def observation(h):
    from opensfm import pymap

    o = pymap.Observation(h.scalar(), h.scalar(), h.positive(), h.integer(), 255, 0, h.pick([0, 1, 2, 3, -1, 2**31 - 1]))
    if h.p(0.2):
        o.depth_prior = pymap.Depth(h.scalar(), h.p(0.5), h.positive())
    return o


def f_tracks(h):
    from opensfm import pymap, pysfm

    ids = ["im1", "im2", "im3", "é", ""]
    tracks = ["0", "1", "2", "", "t"]
    tm = pymap.TracksManager()
    out = []
    for _ in range(h.size()):
        try:
            k = h.r.randint(0, 11)
            if k < 5:
                tm.add_observation(h.pick(ids), h.pick(tracks), observation(h))
            elif k == 5:
                tm.remove_observation(h.pick(ids), h.pick(tracks))
            elif k == 6:
                out.append([tm.get_shot_ids(), tm.get_track_ids(), tm.num_shots(), tm.num_tracks()])
                out.append(tm.get_shot_observations(h.pick(ids)))
                out.append(tm.get_track_observations(h.pick(tracks)))
                out.append(tm.get_observation(h.pick(ids), h.pick(tracks)))
            elif k == 7:
                out.append(tm.construct_sub_tracks_manager([h.pick(tracks) for _ in range(3)], [h.pick(ids) for _ in range(2)]))
            elif k == 8:
                out.append(tm.get_all_common_observations(h.pick(ids), h.pick(ids)))
                out.append(tm.get_all_pairs_connectivity([h.pick(ids) for _ in range(h.r.randint(0, 3))], [h.pick(tracks) for _ in range(h.r.randint(0, 3))]))
            elif k == 9:
                pysfm.add_connections(tm, h.pick(ids), [h.pick(tracks) for _ in range(h.r.randint(0, 3))])
                pysfm.remove_connections(tm, h.pick(ids), [h.pick(tracks) for _ in range(h.r.randint(0, 3))])
            elif k == 10:
                out.append(pysfm.count_tracks_per_shot(tm, [h.pick(ids) for _ in range(2)], [h.pick(tracks) for _ in range(2)]))
            else:
                tm = pymap.TracksManager.instanciate_from_string(tm.as_string())
        except Exception:
            pass
    out.append(pymap.TracksManager.merge_tracks_manager([tm] * h.r.randint(0, 3)))
    return out


def f_tracks_text(h):
    """Texts near the tracks format."""
    from opensfm import pymap

    v = h.pick(["OPENSFM_TRACKS_VERSION_v0\n", "OPENSFM_TRACKS_VERSION_v1\n", "OPENSFM_TRACKS_VERSION_v2\n", "OPENSFM_TRACKS_VERSION_v9\n", "", "OPENSFM_TRACKS_VERSION_v\n",
                  "OPENSFM_TRACKS_VERSION_v99999999999999999999\n"])
    fields = [["im1", "im2", ""], ["0", "7", ""], ["1", "-1", "99999999999", ""], ["0.1", "nan", "x"], ["0.2", "1e999"], ["0.01", ""], ["255", "-1", "1e9"], ["0", "300"],
              ["12"], ["-1", "3"], ["0", "9"]]
    lines = []
    for _ in range(h.size()):
        f = [h.pick(x) if h.p(0.4) else x[0] for x in fields][: h.pick([11, 11, 9, 8, 3, 1, 0, 10])]
        lines.append(h.pick(["\t", "\t", "\t", " ", ","]).join(f))
    text = v + h.pick(["\n", "\n", "\r\n", "\n\n"]).join(lines) + h.pick(["", "\n"])
    if h.p(0.3):
        path = os.path.join(h.tmp, "t.csv")
        with open(path, "w") as f:
            f.write(text)
        return pymap.TracksManager.instanciate_from_file(h.pick([path, path, "/nonexistent/x", h.tmp]))
    return pymap.TracksManager.instanciate_from_string(text)


def f_objects(h):
    """Objects made on their own, without a map around them."""
    import copy
    import pickle

    from opensfm import pygeometry, pymap

    k = h.r.randint(0, 9)
    if k == 0:
        s = pymap.Shot(h.text(), h.camera(), h.pose())
        out = [s.id, s.pose, s.metadata, s.scale, s.merge_cc]
        for f in (lambda: s.get_observation(h.integer()), lambda: s.get_valid_landmarks(), lambda: s.rig_instance_id, lambda: s.rig_camera_id,
                  lambda: s.rig_instance, lambda: s.rig_camera, lambda: s.project(h.array(3)), lambda: s.project_many(h.array(4, 3)),
                  lambda: s.bearing(h.array(2)), lambda: s.bearing_many(h.array(4, 2)), lambda: s.camera, lambda: s.get_observation_landmark(h.integer()),
                  lambda: s.get_landmark_observation(pymap.Landmark("a", np.zeros(3))), lambda: s.remove_observation(h.integer()),
                  lambda: setattr(s, "pose", h.pose()), lambda: s.covariance, lambda: setattr(s, "covariance", h.array(h.like(6), 6)),
                  lambda: s.mesh, lambda: pickle.loads(pickle.dumps(s)), lambda: copy.deepcopy(s)):
            try:
                out.append(f())
            except Exception:
                pass
        return out
    if k == 1:
        lm = pymap.Landmark(h.text(), h.array(3))
        out = [lm.id, lm.coordinates, lm.get_observations(), lm.number_of_observations(), lm.reprojection_errors, lm.color]
        lm.color = h.rng.integers(0, 255, size=h.like(3))
        lm.reprojection_errors = {"a": h.array(h.like(2))}
        return out
    if k == 2:
        m = pymap.ShotMeasurements()
        out = []
        for a in ("gps_accuracy", "gps_position", "orientation", "capture_time", "gravity_down", "compass_angle", "compass_accuracy", "opk_angles", "opk_accuracy", "sequence_key"):
            x = getattr(m, a)
            for f in (lambda: x.value, lambda: setattr(x, "value", h.pick([h.scalar(), h.array(3), h.integer(), h.text(), None])), lambda: x.reset(), lambda: x.value):
                try:
                    out.append(f())
                except Exception:
                    pass
        m.attributes = {"a": "b"}
        n = copy.copy(m)
        n.set(m)
        return out, pickle.loads(pickle.dumps(m))
    if k == 3:

        s = pymap.Shot("a", h.camera(), h.pose()).mesh
        s.vertices, s.faces = h.array(h.size(), 3), h.array(h.size(), 3)
        return s.vertices, s.faces
    if k == 4:
        r = pymap.RigInstance(h.text())
        out = [r.id, r.shots, r.pose]
        for f in (lambda: r.rig_cameras, lambda: r.rig_camera_ids, lambda: r.camera_ids, lambda: r.keys(), lambda: setattr(r, "pose", h.pose()),
                  lambda: r.remove_shot("a"), lambda: r.update_instance_pose_with_shot("a", h.pose()), lambda: r.update_rig_camera_pose("a", h.pose())):
            try:
                out.append(f())
            except Exception:
                pass
        if h.p(0.7):
            # the instance, its camera and its shot live as long as any of them is held
            c = pymap.RigCamera(h.pose(), "rc")
            s = pymap.Shot("s", h.camera(), h.pose())
            r.add_shot(c, s)
            for f in (lambda: r.add_shot(c, s), lambda: r.rig_cameras, lambda: r.rig_camera_ids, lambda: r.camera_ids, lambda: r.shots,
                      lambda: r.update_instance_pose_with_shot("s", h.pose()), lambda: r.update_rig_camera_pose("rc", h.pose()), lambda: r.remove_shot("s")):
                try:
                    out.append(f())
                except Exception:
                    pass
        return out
    if k == 5:
        g = pymap.GroundControlPoint()
        out = [g.id, g.survey_point_id, g.has_altitude, g.lla, g.role, g.observations]
        try:
            out.append(g.lla_vec)
        except Exception:
            pass
        g.id, g.lla = h.text(), {k_: h.scalar() for k_ in h.r.sample(["latitude", "longitude", "altitude", "x"], h.r.randint(0, 3))}
        for f in (lambda: g.lla_vec, lambda: setattr(g, "lla_vec", h.array(h.like(3))), lambda: g.add_observation(pymap.GroundControlPointObservation(h.text(), h.array(2))),
                  lambda: setattr(g, "observations", [pymap.GroundControlPointObservation("a", h.array(2))] * h.size()), lambda: g.lla_vec):
            try:
                out.append(f())
            except Exception:
                pass
        return out
    if k == 6:
        o = observation(h)
        return [o.point, o.scale, o.id, o.color, o.depth_prior, o.copy()]
    if k == 7:
        c = pymap.RigCamera()
        c.id, c.pose = h.text(), h.pose()
        return pickle.loads(pickle.dumps(c)), pymap.RigCamera(h.pose(), h.text())
    if k == 8:
        return pickle.loads(pickle.dumps(h.pose()))
    m = pymap.Map()
    return [m.get_shots(), m.get_reference(), m.get_valid_observations(pymap.TracksManager()), m.to_tracks_manager(), m.get_landmark_view()]


def f_map(h):
    """Histories of edits and reads of one map, with handles kept of what is still there."""
    from opensfm import pygeometry, pymap, pysfm

    m = pymap.Map()
    ids = {k: ["%s%d" % (k, i) for i in range(3)] for k in "crisl"}
    c = h.camera("c0")
    m.create_camera(c)
    m.create_rig_camera(pymap.RigCamera(h.pose(), "r0"))
    m.create_rig_instance("i0")
    kept, out = [], []
    for _ in range(h.pick([5, 20, 60])):
        g = lambda k: h.pick(ids[k]) if h.p(0.9) else h.text()
        k = h.r.randint(0, 33)
        try:
            if k == 0:
                m.create_camera(h.camera(g("c")))
            elif k == 1:
                m.create_rig_camera(pymap.RigCamera(h.pose(), g("r")))
            elif k == 2:
                m.create_rig_instance(g("i"))
            elif k in (3, 4, 5):
                a = (g("s"), g("c") if h.p(0.4) else "c0", g("r") if h.p(0.4) else "r0", g("i"))
                s = m.create_shot(*(a + ((h.pose(),) if h.p(0.5) else ())))
                out.append(s.pose.get_origin())
            elif k == 6:
                a = (g("s"), g("c") if h.p(0.4) else "c0", g("r") if h.p(0.4) else "r0", g("i"))
                m.create_pano_shot(*(a + ((h.pose(),) if h.p(0.5) else ())))
            elif k in (7, 8):
                out.append(m.create_landmark(g("l"), h.array(3)).coordinates)
            elif k in (9, 10, 11, 12):
                m.add_observation(g("s"), g("l"), observation(h))
            elif k == 13:
                s, l = m.get_shot(g("s")), m.get_landmark(g("l"))
                m.add_observation(s, l, observation(h))
            elif k == 14:
                m.remove_observation(g("s"), g("l"))
            elif k == 15:
                s = m.get_shot(g("s"))
                s.remove_observation(h.pick([0, 1, 2, 3, -1]))
            elif k == 16:
                m.remove_landmark(g("l"))
            elif k == 17:
                l = m.get_landmark(g("l"))
                m.remove_landmark(l)
                del l
            elif k == 18:
                m.remove_shot(g("s"))
            elif k == 19:
                m.remove_pano_shot(g("s"))
            elif k == 20:
                m.remove_rig_instance(g("i"))
            elif k == 21:
                m.clear_observations_and_landmarks()
            elif k == 22:
                m.clean_landmarks_below_min_observations(h.pick([0, 1, 2, 3, -1]))
            elif k == 23:
                s = m.get_shot(g("s"))
                out.append([s.get_valid_landmarks(), s.get_observation(h.pick([0, 1, 2])), s.get_observation_landmark(h.pick([0, 1, 2])),
                            s.rig_instance.shots, s.rig_camera.id, s.camera.id, s.rig_instance.rig_cameras, s.project_many(h.array(3, 3))])
            elif k == 24:
                l = m.get_landmark(g("l"))
                out.append([dict((a.id, b) for a, b in l.get_observations().items()), l.number_of_observations()])
            elif k == 25:
                m.update_shot(m.get_shot(g("s")))
            elif k == 26:
                r = pymap.RigInstanceView(m)[g("i")] if h.p(0.5) else pymap.RigInstance(g("i"))
                m.update_rig_instance(r)
            elif k == 27:
                s = m.get_shot(g("s"))
                s.pose = h.pose()
                s.pose.set_origin(h.array(3))
                s.rig_instance.pose = h.pose()
            elif k == 28:
                out.append(m.compute_reprojection_errors(m.to_tracks_manager(), h.pick([pymap.ErrorType.Pixel, pymap.ErrorType.Normalized, pymap.ErrorType.Angular])))
            elif k == 29:
                tm = m.to_tracks_manager()
                for _ in range(3):
                    tm.add_observation(g("s"), g("l"), observation(h))
                out.append([m.get_valid_observations(tm), m.compute_reprojection_errors(tm, h.pick([pymap.ErrorType.Pixel, pymap.ErrorType.Angular]))])
            elif k == 30:
                n = pymap.Map.deep_copy(m, h.p(0.5))
                if h.p(0.5):
                    pysfm.realign_maps(m, n, h.p(0.5))
                if h.p(0.5):
                    m = n
            elif k == 31:
                for v in (m.get_shots(), m.get_pano_shots(), m.get_cameras(), m.get_biases(), m.get_landmarks(), pymap.RigCameraView(m), pymap.RigInstanceView(m)):
                    kept.append((v, m))
                    out.append([len(v), list(v.keys()), [str(x)[:5] for x in v.values()], len(list(v.items())), v.get("s0"), "zz" in v])
            elif k == 32:
                out.append(pysfm.filter_badly_conditioned_points(m, h.pick([1.0, 0.0, 180.0, h.scalar()]), h.pick([1e-15, 0.0, h.scalar()])))
                out.append(pysfm.remove_isolated_points(m, h.pick([7, 1, 0, 2, -1, 100])))
            else:
                m.set_reference(h.scalar(), h.scalar(), h.scalar())
                m.set_bias(g("c"), pygeometry.Similarity(h.array(3), h.array(3), h.scalar()))
                out.append(m.get_bias(g("c")).scale)
        except Exception:
            h.refused += 1
    # what was handed out stays usable when the last name of the map is gone
    s = list(m.get_shots().values()) if h.p(0.7) else []
    views = [m.get_shots(), m.get_landmarks(), pymap.RigInstanceView(m)]
    del m
    if h.p(0.5):
        kept = []
    gc.collect()
    for v in views:
        out.append([len(v), [str(x.id) for x in v.values()]])
    for x in s:
        out.append([x.id, x.pose.get_origin(), x.camera.id, x.rig_instance.id, [l.id for l in x.get_valid_landmarks()]])
    return out


def f_bundle(h):
    from opensfm import pybundle, pygeometry, pymap

    ba = pybundle.BundleAdjuster()
    out = []
    ids = {k: ["%s%d" % (k, i) for i in range(3)] for k in "crispg"}
    cams = [h.camera("c%d" % i) for i in range(2)]
    n = h.pick([2, 3])
    steps = []
    for i, c in enumerate(cams):
        steps.append(lambda c=c, i=i: ba.add_camera("c%d" % i, c, c, h.p(0.3)))
    for i in range(2):
        steps.append(lambda i=i: ba.add_rig_camera("r%d" % i, h.pose(), h.pose(), h.p(0.5)))
    for i in range(n):
        steps.append(lambda i=i: ba.add_rig_instance("i%d" % i, h.pose(), {"s%d" % i: h.pick(["c0", "c1"] + (["zz"] if h.p(0.1) else []))},
                                                     {"s%d" % i: h.pick(["r0", "r1"] + (["zz"] if h.p(0.1) else []))}, h.p(0.2)))
    for i in range(3):
        steps.append(lambda i=i: ba.add_point("p%d" % i, h.array(3), h.p(0.1)))
    for f in steps:
        if h.p(0.97):
            try:
                f()
            except Exception:
                h.refused += 1
    g = lambda k: h.pick(ids[k]) if h.p(0.95) else h.text()
    for _ in range(h.pick([3, 10, 30])):
        k = h.r.randint(0, 22)
        try:
            if k < 7:
                ba.add_point_projection_observation(g("s"), g("p"), h.array(2), h.positive() if h.p(0.9) else h.scalar(),
                                                    pymap.Depth(h.scalar(), h.p(0.5), h.scalar()) if h.p(0.2) else None)
            elif k == 7:
                ba.add_point_prior(g("p"), h.array(3), np.abs(h.array(3)), h.p(0.5))
            elif k == 8:
                ba.add_rig_instance_position_prior(g("i"), h.array(3), np.abs(h.array(3)), h.pick(["", "g"]))
            elif k == 9:
                ba.add_reconstruction(g("g"), h.p(0.5))
                for i in range(3):
                    ba.add_reconstruction_instance(g("g"), h.scalar(), "i%d" % i)
                ba.set_scale_sharing(g("g"), h.p(0.5))
            elif k == 10:
                rm = pybundle.RelativeMotion(g("i"), g("i"), h.array(3), h.array(3), h.scalar(), h.positive(), h.p(0.5))
                if h.p(0.7):
                    rm.set_scale_matrix(h.array(*h.pick([(6, 6), (7, 7), (7, 6), (0, 0), (3, 3)])))
                ba.add_relative_motion(rm)
            elif k == 11:
                rr = pybundle.RelativeRotation(g("s"), g("s"), h.array(3))
                if h.p(0.7):
                    rr.set_scale_matrix(h.array(3, 3))
                ba.add_relative_rotation(rr)
            elif k == 12:
                ba.add_common_position(g("s"), g("s"), h.scalar(), h.positive())
            elif k == 13:
                n_, w = h.pick([(4, 2), (9, 3), (0, 0), (6, 4), (4, 0), (5, 100), (1, 1), (2, 1)])
                ba.add_heatmap("h", list(h.array(n_)), w, h.pick([1.0, h.scalar()]))
                ba.add_absolute_position_heatmap(g("s"), h.pick(["h", "zz"]), h.scalar(), h.scalar(), h.positive())
            elif k == 14:
                ba.add_absolute_up_vector(g("s"), h.array(3), h.positive())
            elif k == 15:
                ba.add_absolute_pan(g("s"), h.scalar(), h.positive())
                ba.add_absolute_tilt(g("s"), h.scalar(), h.positive())
                ba.add_absolute_roll(g("s"), h.scalar(), h.positive())
            elif k == 16:
                ba.add_linear_motion(g("s"), g("s"), g("s"), h.scalar(), h.positive(), h.positive())
            elif k == 17:
                ba.set_gauge_fix_shots(g("s"), g("s"))
            elif k == 18:
                ba.set_internal_parameters_prior_sd(*[h.positive() for _ in range(9)])
            elif k == 19:
                ba.set_compute_covariances(h.p(0.7))
            elif k == 20:
                ba.set_adjust_absolute_position_std(h.p(0.5))
            elif k == 21:
                ba.set_point_projection_loss_function(h.pick(["TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss", "TruncatedLoss", "x", ""]), h.scalar())
                ba.set_relative_motion_loss_function(h.pick(["TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss", "TruncatedLoss", "x", ""]), h.scalar())
            else:
                ba.set_compute_reprojection_errors(h.p(0.7))
                ba.set_linear_solver_type(h.pick(["DENSE_SCHUR", "SPARSE_SCHUR", "DENSE_QR", "SPARSE_NORMAL_CHOLESKY", "DENSE_QR", "ITERATIVE_SCHUR", "CGNR", "x"]))
        except Exception:
            h.refused += 1
    ba.set_use_analytic_derivatives(h.p(0.5))
    ba.set_max_num_iterations(h.pick([0, 1, 5, 10]))
    ba.set_num_threads(h.pick([1, 2, 4]))
    for _ in range(h.pick([1, 1, 2])):
        try:
            ba.run()
        except Exception:
            h.refused += 1
    for f in (lambda: ba.get_camera(g("c")), lambda: ba.get_rig_camera_pose(g("r")), lambda: ba.get_rig_instance_pose(g("i")), lambda: ba.get_reconstruction(g("g")).get_scale(g("s")),
              lambda: ba.get_point(g("p")).p, lambda: ba.get_point(g("p")).reprojection_errors, lambda: ba.has_point(g("p")), lambda: ba.brief_report(), lambda: ba.full_report(),
              lambda: ba.get_covariance_estimation_valid()):
        try:
            out.append(f())
        except Exception:
            h.refused += 1
    return out


def f_alignment(h):
    from opensfm import pybundle

    ra = pybundle.ReconstructionAlignment()
    n6 = lambda: [h.scalar() for _ in range(6)]
    ids = ["a", "b", "c"]
    for i in ids[: h.pick([3, 3, 3, 2, 0])]:
        ra.add_shot(i, *n6(), h.p(0.2))
    for i in ids[: h.pick([3, 3, 3, 2, 0])]:
        ra.add_reconstruction(i, *n6(), h.scalar(), h.p(0.2))
    g = lambda: h.pick(ids) if h.p(0.97) else h.text()
    for _ in range(h.r.randint(0, 6)):
        k = h.r.randint(0, 4)
        try:
            if k == 0:
                c = pybundle.RARelativeMotionConstraint(g(), g(), *n6())
                if h.p(0.8):
                    for _ in range(4):
                        c.set_scale_matrix(h.pick([0, 1, 3, 5, h.pick([-1, 6, 7, 1000])]), h.pick([0, 2, 5, h.pick([-1, 6, 99])]), h.scalar())
                ra.add_relative_motion_constraint(c)
            elif k == 1:
                ra.add_absolute_position_constraint(g(), h.scalar(), h.scalar(), h.scalar(), h.scalar())
            elif k == 2:
                ra.add_relative_absolute_position_constraint(g(), g(), h.scalar(), h.scalar(), h.scalar(), h.scalar())
            elif k == 3:
                ra.add_common_camera_constraint(g(), g(), g(), g(), h.scalar(), h.scalar())
            else:
                ra.add_common_point_constraint(g(), h.scalar(), h.scalar(), h.scalar(), g(), h.scalar(), h.scalar(), h.scalar(), h.scalar())
        except Exception:
            h.refused += 1
    ra.run()
    s, r = ra.get_shot(g()), ra.get_reconstruction(g())
    return [s and s.rx, r and r.scale, ra.brief_report(), len(ra.full_report())]


def f_adjust_map(h):
    """Adjustment of small maps under odd settings."""
    from opensfm import config, pybundle, pygeometry, pymap, pysfm

    S = scenes.make(h.rng, models=(h.pick(MODELS[:-1]),), shots=h.pick([2, 3, 4]), points=h.pick([1, 4, 15]), strength=0.3)
    S.observe(h.rng, 0.0, h.pick([1.0, 0.5]))
    rec = S.reconstruction()
    m = rec.map
    c = dict(config.default_config())
    c["bundle_max_iterations"] = h.pick([0, 1, 5])
    c["bundle_use_gps"], c["bundle_use_gcp"] = h.p(0.5), h.p(0.5)
    c["bundle_compensate_gps_bias"] = h.p(0.5)
    c["align_orientation_prior"] = h.pick(["horizontal", "vertical", "no_roll", "auto", "x"])
    c["align_method"] = h.pick(["auto", "naive", "orientation_prior", "x"])
    c["bundle_analytic_derivatives"] = h.p(0.5)
    c["optimize_camera_parameters"] = h.p(0.7)
    c["local_bundle_radius"], c["local_bundle_min_common_points"], c["local_bundle_max_shots"] = h.pick([0, 1, 3]), h.pick([0, 1, 20]), h.pick([0, 1, 2, 30])
    if h.level > 1:
        for k in h.r.sample(["loss_function_threshold", "reprojection_error_sd", "exif_focal_sd", "principal_point_sd", "radial_distortion_k1_sd", "gcp_horizontal_sd",
                             "gcp_vertical_sd", "rig_translation_sd", "rig_rotation_sd"], 2):
            c[k] = h.scalar()
        if h.p(0.2):
            c.pop(h.pick(sorted(c)))
    pts = list(m.get_landmarks())
    sid = list(m.get_shots())
    if h.level:
        for k in h.r.sample(pts, min(len(pts), 2)):
            m.get_landmark(k).coordinates = h.array(3)
        m.get_shot(sid[0]).pose = h.pose()
        if h.p(0.3):
            m.remove_shot(sid[-1])
        if h.p(0.2):
            m.clear_observations_and_landmarks()
    gs = []
    for i in range(h.pick([0, 0, 1, 3])):
        g = pymap.GroundControlPoint()
        g.id = "g%d" % i
        if h.p(0.9):
            g.lla = {"latitude": 10 + 1e-5 * h.scalar(), "longitude": 20 + 1e-5 * h.scalar(), "altitude": h.scalar()}
        g.has_altitude = h.p(0.5)
        for s in h.r.sample(sid, h.r.randint(0, len(sid))):
            o = pymap.GroundControlPointObservation(s if h.p(0.95) else "zz", h.array(2))
            g.add_observation(o)
        gs.append(g)
    cp, rp = dict(m.get_cameras()) if h.p(0.9) else {}, dict(pymap.RigCameraView(m)) if h.p(0.9) else {}
    out = []
    for k in h.r.sample(range(7), 3):
        try:
            if k == 0:
                out.append(pysfm.BAHelpers.bundle(m, cp, rp, gs, c))
            elif k == 1:
                out.append(pysfm.BAHelpers.bundle_local(m, cp, rp, gs, h.pick(sid + ["zz"]), c))
            elif k == 2:
                out.append(pysfm.BAHelpers.bundle_shot_poses(m, set(h.r.sample(sid, h.r.randint(0, len(sid)))) | ({"zz"} if h.p(0.1) else set()), cp, rp, c))
            elif k == 3:
                out.append(pysfm.BAHelpers.shot_neighborhood_ids(m, h.pick(sid + ["zz"]), h.pick([0, 1, 5]), h.pick([0, 1, 20]), h.pick([0, 1, 30])))
            elif k == 4:
                out.append(pysfm.BAHelpers.detect_alignment_constraints(m, c, gs))
            elif k == 5:
                ba = pybundle.BundleAdjuster()
                if h.p(0.5):
                    ba.add_point("x", h.array(3), False)
                out.append(pysfm.BAHelpers.add_gcp_to_bundle(ba, m, gs, c))
                pysfm.BAHelpers.bundle_to_map(ba, m, h.p(0.5))
            else:
                n = pymap.Map.deep_copy(m, True)
                if h.p(0.3):
                    n.remove_shot(h.pick(sid))
                pysfm.realign_maps(m, n, h.p(0.5))
        except Exception:
            h.refused += 1
    return out


CALLS = {f.__name__[2:]: f for f in (f_words, f_vlad, f_vlad_distances, f_hahog, f_akaze, f_depth_estimator, f_depth_cleaner, f_depth_pruner, f_openmvs, f_robust,
                                     f_solvers, f_triangulation, f_camera, f_pose, f_geo, f_tracks, f_tracks_text, f_objects, f_map, f_bundle, f_alignment, f_adjust_map)}
SLOW = {"hahog": 0.5, "akaze": 0.6, "depth_estimator": 0.7, "bundle": 1.0, "adjust_map": 0.4, "alignment": 0.5}
REQUIRED = ["returned: " + k for k in CALLS] + ["raised", "workloads of other properties"]


class Quiet:
    """Another property's workload, run only for what the sanitizers see."""

    def __init__(self, chk, until):
        self._chk, self._until = chk, until

    def __getattr__(self, k):
        return getattr(self._chk, k)

    def _late(self):
        if time.time() > self._until:
            raise TimeoutError()

    def case(self, kind, data=None, sig=None, nontrivial=True):
        self._late()
        self._chk.case("workload: " + kind, data, sig, nontrivial)

    def count(self, name, k=1):
        pass

    def extreme(self, name, value):
        pass

    def violation(self, *a, **k):
        pass

    def expect(self, ok, *a, **k):
        self._late()
        return bool(ok)

    def close(self, a, b, tol, what, mechanism=None, rel=False, **data):
        self._late()
        return True

    def guard(self, fn, what, mechanism=None, **data):
        try:
            return True, fn()
        except TimeoutError:
            raise
        except (Exception, SystemExit) as e:
            return False, e


# workloads with much native code, spread over the shards
OTHERS = [["c08", "c20"], ["c17", "c22"], ["c18"], ["c09", "c13"], ["c19", "c24"], ["c02", "c03"], ["c06", "c07"], ["c14", "c16", "c26"]]


def run(chk):
    import importlib

    only = os.environ.get("C27_OPS", "").split()
    n = chk.n(24000, 400000) // len(CALLS)
    until = time.time() + (60 if not chk.thorough else 420)
    for i in range(n):
        for k, f in CALLS.items():
            if (only and k not in only) or time.time() > until:
                continue
            rng = chk.rng_for(k, i)
            if rng.random() > SLOW.get(k, 1.0):
                continue
            chk.case("call of " + k, {"operation": k, "number": i, "shard": chk.shard}, sig=(k, chk.shard, i))
            h = Hostile(rng)
            h.tmp, h.refused = chk.tmp, 0
            try:
                with np.errstate(all="ignore"):
                    out = f(h)
                repr(out)[:10]
                chk.count("returned: " + k)
            except Exception as e:
                chk.count("raised")
                chk.count("raised: " + k)
                if os.environ.get("C27_SHOW"):
                    print(k, type(e).__name__, str(e)[:150])
            # the sanitizer ends the process at its first report, so getting here is its verdict on this call
            chk.count("oracle evaluations")
            chk.count("refused within histories", h.refused)
    if only:
        return
    for name in OTHERS[chk.shard % len(OTHERS)]:
        q = Quiet(chk, time.time() + (15 if not chk.thorough else 150))
        try:
            importlib.import_module("checks." + name).run(q)
        except TimeoutError:
            pass
        except Exception as e:
            chk.count("workloads cut short: " + type(e).__name__)
        chk.count("workloads of other properties")
