"""C17: minimal solvers and robust estimators recover the true model."""
import multiprocessing

import numpy as np

import gen
import scenes

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 300, "thorough": 800}
REQUIRED = ["models from minimal sets", "true model found", "relative poses", "relative rotations", "absolute poses", "refined relative poses", "robust estimations",
            "reported inliers compared", "truth recovered despite outliers", "two-view reconstructions", "plane motions", "small samples", "algebra helpers",
            "reversals which can't be told", "reversals which can be told", "motions of one direction", "pairs ranked", "pairs ranked one at a time", "pairs a rotation explains"]
RULE = ("one case = one set of exact (or partly corrupted) correspondences of a random, frontal, planar, panoramic or tiny scene; every returned model is judged by "
        "its defining constraints and by the truth; non-trivial always")
ASSUMPTIONS = ["solvers may lose the solution of a nearly degenerate set: the share of sets solved within tolerance is bounded (99 % of sets in general position)",
               "inliers are compared outside a relative margin of 1e-6 of the threshold"]


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def skew(t):
    return np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]])


def rot_ok(R):
    return np.all(np.isfinite(R)) and np.abs(R @ R.T - np.eye(3)).max() < 1e-6 and np.linalg.det(R) > 0


def angle_of(R):
    return gen.rotation_angle(R)


def world(rng, n, style=None):
    """Two cameras seeing n points: x2 = R x1 + t."""
    style = style or str(rng.choice(["random", "random", "frontal", "panorama", "planar", "narrow"]))
    R = gen.rodrigues(rng.normal(size=3) * 0.4)
    t = unit(rng.normal(size=3))
    if style == "frontal":
        X = np.stack([rng.uniform(-2, 2, n), rng.uniform(-2, 2, n), rng.uniform(3, 9, n)], 1)
        R = gen.rodrigues(rng.normal(size=3) * 0.15)
    elif style == "narrow":
        X = np.stack([rng.uniform(-1, 1, n), rng.uniform(-1, 1, n), rng.uniform(5, 9, n)], 1)
        R = gen.rodrigues(rng.normal(size=3) * 0.1)
    elif style == "panorama":
        X = unit(rng.normal(size=(n, 3))) * rng.uniform(2, 8, (n, 1))
        R = gen.rand_rotation(rng)
    elif style == "planar":
        nn = unit(rng.normal(size=3) * [0.4, 0.4, 0] + [0, 0, 1])
        X = np.stack([rng.uniform(-2, 2, n), rng.uniform(-2, 2, n), np.zeros(n)], 1)
        X[:, 2] = (5 - X[:, :2] @ nn[:2]) / nn[2]
        R = gen.rodrigues(rng.normal(size=3) * 0.15)
    else:
        X = np.stack([rng.uniform(-3, 3, n), rng.uniform(-3, 3, n), rng.uniform(2, 8, n)], 1)
    if style in ("frontal", "narrow", "planar", "random"):
        t = t * rng.uniform(0.5, 1.0)
    return style, X, R, t


def mat_gap(A, B):
    a, b = A / np.linalg.norm(A), B / np.linalg.norm(B)
    return float(min(np.linalg.norm(a - b), np.linalg.norm(a + b)))


class Rate:
    def __init__(self):
        self.ok = {}

    def add(self, key, good, limit=0.97):
        a, b, _ = self.ok.get(key, (0, 0, 0))
        self.ok[key] = (a + bool(good), b + 1, limit)

    def judge(self, chk):
        for key, (a, b, limit) in self.ok.items():
            if b >= 8:
                chk.extreme("share failed: " + key, 1 - a / b)
                chk.expect(b - a <= 3 + (1 - limit) * b, key + ": too many sets in general position are not solved", solved=a, of=b)


# ------------------------------------------------------------ minimal solvers
def essentials(chk, rng, rate):
    from opensfm import pygeometry

    for i in range(chk.n(1600, 8000)):
        n = 5 if i % 2 else int(rng.choice([9, 10, 12, 40]))
        style, X, R, t = world(rng, n)
        b1, b2 = unit(X), unit(X @ R.T + t)
        E = skew(t) @ R
        five = n == 5
        chk.case("essential matrix", {"points": n, "scene": style}, sig=(chk.shard, i))
        what = "five-point solver" if five else "n-point essential matrix"
        ok, Es = chk.guard(lambda: (pygeometry.essential_five_points if five else pygeometry.essential_n_points)(b1, b2), what)
        if not ok:
            continue
        good = 1.0
        for M in Es:
            M = np.array(M)
            chk.count("models from minimal sets")
            if not chk_finite(chk, M, what):
                continue
            M = M / np.linalg.norm(M)
            res = np.abs(np.sum(b2 * (b1 @ M.T), axis=1)).max()
            con = max(abs(np.linalg.det(M)), np.abs(2 * M @ M.T @ M - np.trace(M @ M.T) * M).max())
            if five:
                chk.expect(res < 1e-6, what + ": a model does not satisfy the epipolar equations of its points", residual=float(res))
                rate.add("five-point solver, models obeying the constraints of essential matrices", con < 1e-4)
            elif n > 8:
                chk.expect(con < 1e-9, what + ": not an essential matrix", violation=float(con), points=n)
            good = min(good, mat_gap(M, E))
        if style != "planar" or five:
            rate.add(what + (", narrow" if style == "narrow" else ""), good < (1e-4 if five else 1e-5))
            chk.count("true model found", int(good < 1e-4))


def chk_finite(chk, M, what):
    return bool(np.all(np.isfinite(M))) or bool(chk.expect(False, what + ": a model is not finite", model=np.array(M).ravel().tolist()))


def relative(chk, rng, rate):
    from opensfm import pygeometry

    for i in range(chk.n(800, 6000)):
        n = int(rng.choice([1, 2, 5, 8, 30]))
        style, X, R, t = world(rng, n)
        t = unit(t)
        b1, b2 = unit(X), unit(X @ R.T + t)
        E = skew(t) @ R * rng.choice([1, -1]) * 10 ** rng.uniform(-2, 2)
        chk.case("relative pose", {"points": n, "scene": style}, sig=(chk.shard, i))
        ok, Rt = chk.guard(lambda: pygeometry.relative_pose_from_essential(E, b1, b2), "relative pose from an essential matrix")
        if ok:
            chk.count("relative poses")
            chk.expect(rot_ok(Rt[:, :3]) and abs(np.linalg.norm(Rt[:, 3]) - 1) < 1e-9, "relative pose from an essential matrix: not a rotation and a unit translation")
            par = np.linalg.norm(np.cross(b1 @ R.T, b2), axis=1)
            if np.median(par) > 1e-3:
                chk.expect(np.abs(Rt[:, :3] - R).max() < 1e-6 and np.abs(Rt[:, 3] - t).max() < 1e-6, "relative pose from an essential matrix: not the pose that puts the "
                           "points in front of both cameras", points=n, scene=style)
        # no translation at all
        if i % 10 == 0:
            ok, Rt = chk.guard(lambda: pygeometry.relative_pose_from_essential(skew(t) @ R, b1, b1 @ R.T), "relative pose without parallax")
            if ok:
                chk.expect(rot_ok(Rt[:, :3]) and abs(np.linalg.norm(Rt[:, 3]) - 1) < 1e-9, "relative pose without parallax: not a rotation and a unit translation",
                           pose=np.array(Rt).ravel().tolist())
        # refinement
        if n >= 8:
            d = float(rng.choice([0, 1e-3, 0.02, 0.1, 0.1, 0.2]))
            R0 = gen.rodrigues(rng.normal(size=3) * d) @ R
            t0 = unit(t + d * rng.normal(size=3))
            start = np.hstack([R0, t0[:, None]])
            ok, Rt = chk.guard(lambda: pygeometry.relative_pose_refinement(start, b1, b2, 100), "relative pose refinement")
            if ok:
                chk.count("refined relative poses")
                Q = Rt[:, :3]
                chk.expect(rot_ok(Q), "refined relative pose: not a rotation")
                before, after = (float(np.sum(err_relative_pose(M, b1, b2)[0] ** 2)) for M in (start, Rt))
                if before < 1e-2:
                    chk.expect(abs(np.linalg.norm(Rt[:, 3]) - 1) < 0.05, "refined relative pose: not a unit translation", norm=float(np.linalg.norm(Rt[:, 3])))
                rate.add("relative pose refinement reduces the error", after <= 0.5 * before + 1e-7)
                if before > 1e-5:
                    chk.count("refinements from a wrong pose")
        # rotations
        m = int(rng.choice([2, 3, 3, 5, 30]))
        style2, Y, Q, _ = world(rng, m)
        c1 = unit(Y)
        if rng.random() < 0.2 and m > 2:  # all bearings in a plane or on a circle
            c1 = unit(np.stack([np.cos(np.arange(m)), np.sin(np.arange(m)), np.full(m, 0.3)], 1))
        c2 = c1 @ Q.T
        ok, G = chk.guard(lambda: pygeometry.relative_rotation_n_points(c1, c2), "rotation between bearings")
        if ok:
            chk.count("relative rotations")
            chk.expect(rot_ok(G), "rotation between bearings: not a rotation")
            if m >= 3:
                c = c1 - c1.mean(0)
                s = np.linalg.svd(c)[1]
                if s[1] > 1e-3:
                    chk.expect(np.abs(G - Q).max() < 1e-7 / s[1] ** 2, "rotation between bearings: not the rotation between exact bearings", points=m, scene=style2,
                               error=float(np.abs(G - Q).max()), spread=float(s[1]))


def absolute(chk, rng, rate):
    from opensfm import pygeometry

    for i in range(chk.n(1600, 8000)):
        n = int(rng.choice([3, 3, 3, 4, 6, 12, 50]))
        style, Y, _, _ = world(rng, n)
        R, t = gen.rand_rotation(rng), rng.normal(size=3) * 3
        X = (Y - t) @ R  # Y = R X + t
        b = unit(Y)
        chk.case("absolute pose", {"points": n, "scene": style}, sig=(chk.shard, i))
        if n == 3:
            ok, Ms = chk.guard(lambda: pygeometry.absolute_pose_three_points(b, X), "three-point pose")
            if ok:
                gap = np.inf
                chk.expect(len(Ms) <= 4, "three-point pose: more than four models", got=len(Ms))
                for M in Ms:
                    M = np.array(M)
                    chk.count("models from minimal sets")
                    if np.all(np.isfinite(M)):
                        chk.expect(rot_ok(M[:, :3]), "three-point pose: a model is not a rotation")
                        gap = min(gap, max(np.abs(M[:, :3] - R).max(), np.abs(M[:, 3] - t).max() / 5))
                    else:
                        chk.expect(False, "three-point pose: a model is not finite")
                tri = np.linalg.svd(b)[1][2]
                if tri > 0.02:
                    rate.add("three-point pose", gap < 1e-3)
                    chk.count("true model found", int(gap < 1e-3))
        else:
            ok, M = chk.guard(lambda: pygeometry.absolute_pose_n_points(b, X), "n-point pose")
            if ok:
                chk.count("absolute poses")
                chk.expect(rot_ok(M[:, :3]), "n-point pose: not a rotation", scene=style, points=n)
                if n >= 6:
                    e = angle_of(M[:, :3] @ R.T)
                    rate.add("n-point pose, " + style, e < 0.02, 0.75 if style == "planar" else 0.95)
        ok, v = chk.guard(lambda: pygeometry.absolute_pose_n_points_known_rotation(b, X @ R.T), "pose with known rotation")
        if ok:
            chk.count("absolute poses")
            s = np.linalg.svd(np.eye(3) - b.T @ b / n)[1][2]
            if s > 1e-4:
                chk.expect(np.abs(v - t).max() < 1e-10 * 20 / s, "pose with known rotation: not the true translation", error=float(np.abs(v - t).max()), points=n)


# ------------------------------------------------------------ robust estimation
def err_relative_pose(M, d1, d2):
    R, t = M[:, :3], M[:, 3]
    x, y = unit(d1), unit(d2)
    out = []
    c = -R.T @ t
    for a, b in zip(x, y @ R):
        A = np.array([[a @ a, -(a @ b)], [a @ b, -(b @ b)]])
        if abs(np.linalg.det(A)) < 1e-10:
            out.append(1.0)
            continue
        lam = np.linalg.solve(A, [c @ a, c @ b])
        p = (lam[0] * a + c + lam[1] * b) / 2
        out.append(1 - (unit(p) @ a + unit(R @ p + t) @ (R @ b)) / 2)
    return np.array(out), lambda th: 1 - np.cos(th)


def err_rotation(M, d1, d2):
    return 1 - np.sum((d1 @ M.T) * d2, axis=1), lambda th: 1 - np.cos(th)


def err_absolute(M, b, X):
    return 1 - np.sum(unit(X @ M[:, :3].T + M[:, 3]) * unit(b), axis=1), lambda th: 1 - np.cos(th)


def err_known(v, b, X):
    return 1 - np.sum(unit(X + v) * unit(b), axis=1), lambda th: 1 - np.cos(th)


def err_essential(E, d1, d2):
    with np.errstate(all="ignore"):
        return np.abs(np.arcsin(np.sum(d2 * (d1 @ E.T), axis=1))), lambda th: th


def err_similarity(M, p, q):
    return np.linalg.norm(q - (p @ M[:3, :3].T + M[:3, 3]), axis=1), lambda th: th


def err_line(m, p, _):
    return np.abs(p[:, 1] - m[0] * p[:, 0] - m[1]), lambda th: th


def problem(rng, kind, n):
    """(first data, second data, error function, gap to the truth, corrupt, threshold)"""
    style, X, R, t = world(rng, n, str(rng.choice(["random", "panorama", "frontal"])))
    if kind == "relative_pose":
        t = unit(t)
        return unit(X), unit(X @ R.T + t), err_relative_pose, lambda M: max(angle_of(M[:, :3] @ R.T), np.linalg.norm(unit(M[:, 3]) - t)), 0.004
    if kind == "essential":
        return unit(X), unit(X @ R.T + t), err_essential, lambda M: mat_gap(M, skew(t) @ R), 0.004
    if kind == "relative_rotation":
        return unit(X), unit(X) @ R.T, err_rotation, lambda M: angle_of(M @ R.T), 0.004
    if kind == "absolute_pose":
        Q, v = gen.rand_rotation(rng), rng.normal(size=3) * 3
        return unit(X), (X - v) @ Q, err_absolute, lambda M: max(angle_of(M[:, :3] @ Q.T), np.linalg.norm(M[:, 3] - v)), 0.004
    if kind == "absolute_pose_known_rotation":
        v = rng.normal(size=3) * 3
        return unit(X), X - v, err_known, lambda m: np.linalg.norm(m - v), 0.004
    if kind == "similarity":
        s, Q, v = 10 ** rng.uniform(-1, 1), gen.rand_rotation(rng), rng.normal(size=3) * 10
        return X, s * X @ Q.T + v, err_similarity, lambda M: max(np.abs(M[:3, :3] - s * Q).max() / s, np.abs(M[:3, 3] - v).max()), 0.05
    a, b = rng.normal(), rng.normal() * 3
    x = rng.uniform(-10, 10, n)
    return np.stack([x, a * x + b], 1), None, err_line, lambda m: max(abs(m[0] - a), abs(m[1] - b)), 0.05


KINDS = ["relative_pose", "essential", "relative_rotation", "absolute_pose", "absolute_pose_known_rotation", "similarity", "line"]


def robust(chk, rng, rate):
    from opensfm import multiview, pyrobust

    for i in range(chk.n(672, 3000)):
        kind = KINDS[i % 7]
        n = int(rng.choice([12, 30, 80]))
        A, B, err, gap, thr = problem(rng, kind, n)
        share = float(rng.choice([0.0, 0.2, 0.35]))
        noise = float(rng.choice([0, 0, 0.1]))
        bad = rng.random(n) < share
        A, B = A.copy(), None if B is None else B.copy()
        if kind in ("similarity",):
            B[bad] += rng.normal(size=(bad.sum(), 3)) * 5
            B += noise * thr * rng.normal(size=B.shape)
        elif kind == "line":
            A[bad, 1] += rng.normal(size=bad.sum()) * 10
            A[:, 1] += noise * thr * rng.normal(size=n)
        else:
            A[bad] = unit(rng.normal(size=(bad.sum(), 3)))
            A = unit(A + noise * thr * rng.normal(size=A.shape))
        how = ["RANSAC", "MSAC", "LMedS"][i // 7 % 3]
        p = pyrobust.RobustEstimatorParams()
        p.iterations = 800
        p.use_iteration_reduction = bool(rng.random() < 0.5)
        p.use_local_optimization = bool(rng.random() < 0.7)
        if kind in ("relative_pose", "essential") and not p.use_iteration_reduction:
            p.iterations = 200
        th = thr if how != "LMedS" else 2.0
        chk.case("robust " + kind, {"points": n, "outliers": share, "scoring": how, "noise": noise, "local": p.use_local_optimization,
                                    "reduce": p.use_iteration_reduction}, sig=(chk.shard, i))
        f = getattr(pyrobust, "ransac_" + kind)
        args = (A,) if B is None else (A, B)
        if kind == "relative_rotation":
            # bearings of the second camera first?
            args = (A, B)
        ok, r = chk.guard(lambda: f(*args, th, p, getattr(pyrobust.RansacType, how)), "robust " + kind)
        if not ok:
            continue
        chk.count("robust estimations")
        M = np.array(r.lo_model)
        idx = list(r.inliers_indices)
        what = "robust estimation of %s" % kind.replace("_", " ")
        chk.expect(len(set(idx)) == len(idx) and all(0 <= k < n for k in idx), what + ": inlier indices repeated or out of range", indices=idx[:20])
        if not chk_finite(chk, M, what):
            continue
        if kind in ("relative_pose", "absolute_pose"):
            chk.expect(rot_ok(M[:, :3]), what + ": not a rotation")
        if kind == "relative_rotation":
            chk.expect(rot_ok(M), what + ": not a rotation")
        e, adapt = err(M, A, B)
        limit = adapt(th) if how != "LMedS" else None
        if how != "LMedS":
            e = np.nan_to_num(e, nan=np.inf)
            margin = 1e-6 * limit + 1e-13
            lo, hi = set(np.nonzero(e < limit - margin)[0].tolist()), set(np.nonzero(e <= limit + margin)[0].tolist())
            chk.count("reported inliers compared", len(idx))
            chk.expect(lo <= set(idx) <= hi, what + ": reported inliers are not the correspondences within the threshold", missing=sorted(lo - set(idx))[:5],
                       extra=sorted(set(idx) - hi)[:5], points=n, scoring=how)
            if how == "RANSAC":
                chk.expect(r.score == len(idx), what + ": the score is not the number of inliers", score=r.score, inliers=len(idx))
        g = gap(M)
        tol = (0.03 if noise else 5e-3) if how != "LMedS" else 0.05
        if kind == "similarity":
            tol = 0.1
        if kind == "line":
            tol = 0.2
        good = g < tol
        if n >= 30:
            rate.add(what, good, 0.6 if kind == "essential" else 0.85)
            if how != "LMedS":
                rate.add(what + ", as many inliers as outliers leave", len(idx) >= 0.85 * (~bad).sum(), 0.95)
        chk.count("truth recovered despite outliers", int(good and bad.any()))
    # the wrappers used by the pipeline
    for i in range(chk.n(160, 800)):
        style, X, R, t = world(rng, 40, str(rng.choice(["random", "frontal", "panorama"])))
        t = unit(t)
        # second camera in the frame of the first: X = R x2 + t
        b1, b2 = unit(X), unit((X - t) @ R)
        bad = rng.random(40) < 0.2
        b2[bad] = unit(rng.normal(size=(bad.sum(), 3)))
        chk.case("pipeline estimators", {"scene": style, "outliers": int(bad.sum())}, sig=(chk.shard, i))
        ok, T = chk.guard(lambda: multiview.relative_pose_ransac(b1, b2, 0.004, 1000, 0.999), "relative_pose_ransac")
        if ok:
            rate.add("relative_pose_ransac", max(angle_of(T[:, :3] @ R.T), np.linalg.norm(unit(T[:, 3]) - t)) < 0.03, 0.85)
            R0, t0 = gen.rodrigues(rng.normal(size=3) * 0.1) @ R, unit(t + 0.1 * rng.normal(size=3))
            ok, T2 = chk.guard(lambda: multiview.relative_pose_optimize_nonlinear(b1[~bad], b2[~bad], t0, R0, 100), "relative_pose_optimize_nonlinear")
            if ok:
                back = [np.hstack([M[:, :3].T, -M[:, :3].T @ M[:, 3:]]) for M in (np.hstack([R0, t0[:, None]]), T2)]
                before, after = (float(np.sum(err_relative_pose(M, b1[~bad], b2[~bad])[0] ** 2)) for M in back)
                rate.add("relative_pose_optimize_nonlinear reduces the error", after <= 0.5 * before + 1e-7)
        ok, Q = chk.guard(lambda: multiview.relative_pose_ransac_rotation_only(b1, b1 @ R, 0.004, 1000, 0.999), "rotation-only estimation")
        if ok:
            chk.expect(rot_ok(Q) and angle_of(Q @ R.T) < 1e-5, "rotation-only estimation: not the true rotation", error=angle_of(Q @ R.T))
        # camera at pose (R, c): world = R x + c
        Rw, c = gen.rand_rotation(rng), rng.normal(size=3) * 4
        W = X @ Rw.T + c
        bb = unit(X)
        bb[bad] = unit(rng.normal(size=(bad.sum(), 3)))
        ok, T = chk.guard(lambda: multiview.absolute_pose_ransac(bb, W, 0.004, 1000, 0.999), "absolute_pose_ransac")
        if ok:
            rate.add("absolute_pose_ransac", angle_of(T[:, :3] @ Rw.T) < 0.01 and np.linalg.norm(T[:, 3] - c) < 0.05)
        ok, T = chk.guard(lambda: multiview.absolute_pose_known_rotation_ransac(bb, X + c, 0.004, 1000, 0.999), "known-rotation estimation")
        if ok:
            rate.add("absolute_pose_known_rotation_ransac", np.linalg.norm(T[:, 3] - c) < 0.05 and np.allclose(T[:, :3], np.eye(3)))


def _small(q, kind, n, seed):
    import osfm_loader  # noqa: F401
    from opensfm import pyrobust

    rng = np.random.default_rng(seed)
    A, B, err, gap, thr = problem(rng, kind, max(n, 1))
    A, B = A[:n], None if B is None else B[:n]
    p = pyrobust.RobustEstimatorParams()
    p.iterations = 20
    try:
        args = (A,) if B is None else (A, B)
        r = getattr(pyrobust, "ransac_" + kind)(*args, thr, p, pyrobust.RansacType.RANSAC)
        q.put((len(r.inliers_indices), bool(np.all(np.isfinite(np.array(r.lo_model))))))
    except Exception as e:
        q.put(("raised", type(e).__name__))


def small(chk, rng):
    """Too few correspondences end the estimation (in a child process: it could hang or crash)."""
    from opensfm import pyrobust  # noqa: F401

    ctx = multiprocessing.get_context("fork")
    for kind, n in chk.mine([(kind, n) for kind in KINDS for n in (0, 1, 2, 4)]):
        chk.case("small sample", {"kind": kind, "points": n}, sig=("small", kind, n))
        q = ctx.Queue()
        p = ctx.Process(target=_small, args=(q, kind, n, 5))
        p.start()
        p.join(20)
        hung = p.is_alive()
        if hung:
            p.kill()
            p.join()
        chk.count("small samples")
        chk.expect(not hung, "robust estimation of %s does not end with too few correspondences" % kind, points=n)
        if not hung:
            chk.expect(p.exitcode == 0, "robust estimation of %s crashes with too few correspondences" % kind, points=n, exit=p.exitcode)
            if p.exitcode == 0:
                out = q.get()
                chk.expect(out[0] == "raised" or 0 <= out[0] <= n, "robust estimation of %s reports more inliers than correspondences" % kind, got=out)


# ------------------------------------------------------------ pipeline functions
def two_views(chk, rng, rate):
    from opensfm import reconstruction

    for i in range(chk.n(200, 1000)):
        models = [str(rng.choice(gen.MODELS)) for _ in range(2)]
        flat = rng.random() < 0.35 and "spherical" not in models
        S = scenes.make(rng, models, shots=2, points=250, layout="inside" if "spherical" in models else "ring", strength=0.2, same_camera=None)
        if flat:
            # a plane the cameras see from the side
            S.X[:, 2] = 0.15 * S.X[:, 0] - 0.4
            S.observe()
        a, b = sorted(S.shots)
        common = sorted(set(S.obs[a]) & set(S.obs[b]))
        if len(common) < 30:
            continue
        rec = S.reconstruction(points=False)
        p1, p2 = (np.array([S.obs[s][k] for k in common]) for s in (a, b))
        bad = rng.random(len(common)) < (0.2 if rng.random() < 0.5 else 0)
        p2[bad] = rng.uniform(-0.3, 0.3, (bad.sum(), 2))
        c1, c2 = (rec.cameras[S.shots[s]["cam"]] for s in (a, b))
        Ra, Rb = S.shots[a]["R"], S.shots[b]["R"]
        R = Rb @ Ra.T
        t = S.shots[b]["t"] - R @ S.shots[a]["t"]
        chk.case("two views", {"models": models, "plane": flat, "outliers": int(bad.sum()), "points": len(common)}, sig=(chk.shard, i))
        chk.count("two-view reconstructions")
        ok, out = chk.guard(lambda: reconstruction.two_view_reconstruction_general(p1, p2, c1, c2, 0.004, 1000), "two-view reconstruction")
        if ok:
            r, tt, inl, report = out
            chk.expect(r is not None, "two-view reconstruction: no motion found", inliers=report)
            if r is not None:
                Q = gen.rodrigues(np.array(r))
                g = max(angle_of(Q @ R.T), np.linalg.norm(unit(np.array(tt)) - unit(t)))
                if not flat:
                    rate.add("two-view reconstruction", g < 0.02, 0.8)
                inl = np.asarray(inl)
                chk.expect(len(set(inl.tolist())) == len(inl) and (len(inl) == 0 or (inl.min() >= 0 and inl.max() < len(common))), "two-view reconstruction: inlier indices")
                if g < 0.005:
                    chk.expect(set(np.nonzero(~bad)[0].tolist()) <= set(inl.tolist()) or flat or len(set(np.nonzero(~bad)[0].tolist()) - set(inl.tolist())) <= 0.1 * len(common),
                               "two-view reconstruction: exact matches are not inliers", missing=int(len(set(np.nonzero(~bad)[0].tolist()) - set(inl.tolist()))))
        if flat:
            b1, b2 = c1.pixel_bearing_many(p1[~bad]), c2.pixel_bearing_many(p2[~bad])
            if np.min(b1[:, 2]) > 0.1 and np.min(b2[:, 2]) > 0.1:
                ok, out = chk.guard(lambda: reconstruction.two_view_reconstruction_plane_based(b1, b2, 0.004), "plane-based reconstruction")
                if ok and out[0] is not None:
                    chk.count("plane motions")
                    chk.expect(len(out[2]) >= 0.9 * len(b1), "plane-based reconstruction of an exact plane has few inliers", inliers=len(out[2]), of=len(b1))
        # no translation
        if not flat and i % 3 == 0:
            Y = rng.uniform(-1.5, 1.5, (40, 3)) + [0, 0, 4]
            Q = gen.rodrigues(rng.normal(size=3) * 0.1)
            cc = gen.make_camera(dict(gen.camera_params(rng, "perspective", 0.1), focal=0.8), "c")
            q1, q2 = cc.project_many(Y), cc.project_many(Y @ Q.T)
            ok, out = chk.guard(lambda: reconstruction.two_view_reconstruction_rotation_only(q1, q2, cc, cc, 0.004), "rotation-only reconstruction")
            if ok:
                chk.expect(angle_of(gen.rodrigues(np.array(out[0])) @ Q.T) < 1e-4 and len(out[1]) == 40, "rotation-only reconstruction: not the true rotation",
                           error=angle_of(gen.rodrigues(np.array(out[0])) @ Q.T), inliers=len(out[1]))


def reversal(chk, rng):
    """A relative motion and its inverse: the one with more inliers is kept, unless they are about as good."""
    from opensfm import reconstruction

    for i in range(chk.n(80, 2000)):
        w = world(rng, int(rng.choice([6, 12, 40, 120])), str(rng.choice(["random", "frontal", "narrow", "planar"])))
        _, X, R, t = w
        b1, b2 = unit(X), unit(X @ R.T + t)
        n = len(b1)
        if rng.random() < 0.4:
            # some of the points moved the other way
            other = rng.random(n) < rng.uniform(0.2, 0.8)
            b2[other] = unit((X[other] - t) @ R)
        bad = rng.random(n) < rng.choice([0, 0, 0.3])
        b2 = np.where(bad[:, None], unit(b2 + rng.normal(size=b2.shape)), b2)
        # from the second camera to the first
        R0, t0 = R.T, -R.T @ t
        start = str(rng.choice(["truth", "inverse", "near", "random"]))
        if start == "near":
            R0 = R0 @ gen.rodrigues(rng.normal(size=3) * 0.002)
        elif start == "random":
            R0, t0 = gen.rodrigues(rng.normal(size=3) * 0.3), unit(rng.normal(size=3))
        if start == "inverse":
            R0, t0 = R0.T, -R0.T @ t0
        thr, its = float(rng.choice([0.004, 0.02])), int(rng.choice([0, 10, 100]))
        chk.case("reversal", {"points": n, "start": start, "outliers": int(bad.sum()), "threshold": thr}, sig=(chk.shard, i))
        one = []
        for Rk, tk in ((R0, t0), (R0.T, -R0.T @ t0)):
            ok, out = chk.guard(lambda: reconstruction.two_view_reconstruction_5pt(b1, b2, Rk, tk, thr, its), "two-view refinement")
            if not ok:
                break
            one.append(out)
            r, tt, inl = out
            chk.expect((r is None) == (tt is None) and (r is not None or len(inl) == 0) and (r is None or len(inl) > 5), "two-view refinement: a motion with few inliers", inliers=len(inl))
        if len(one) < 2:
            continue
        counts = [len(o[2]) for o in one]
        truth = 1 if start == "inverse" else 0
        good = int((~bad & (np.linalg.norm(b2 - unit(X @ R.T + t), axis=1) < 1e-12)).sum())
        if start in ("truth", "inverse") and good > 5 and its == 0:
            chk.expect(counts[truth] >= good, "two-view refinement: the true motion doesn't have its inliers", got=counts[truth], exact=good)
            chk.expect(one[truth][0] is not None and angle_of(gen.rodrigues(np.array(one[truth][0])) @ R.T) < 1e-6, "two-view refinement: the motion isn't kept", start=start)
        for ratio in (float(rng.uniform(0.05, 0.95)), 1.0):
            ok, out = chk.guard(lambda: reconstruction.two_view_reconstruction_5pt(b1, b2, R0, t0, thr, its, True, ratio), "two-view refinement with check of reversal")
            if not ok:
                continue
            known = [k for k in range(2) if one[k][0] is not None]
            if len(known) == 2:
                q = min(counts) / max(counts)
                want = None if q > ratio else (int(np.argmax(counts)) if counts[0] != counts[1] else -1)
                chk.count("reversals which can't be told" if want is None else "reversals which can be told")
            else:
                want = known[0] if known else None
                chk.count("motions of one direction", len(known))
            if want is None:
                chk.expect(out[0] is None and out[1] is None and len(out[2]) == 0, "reversal: an ambiguous motion is kept", counts=counts, ratio=ratio)
            else:
                some = [k for k in ([want] if want >= 0 else [0, 1])
                        if out[0] is not None and np.allclose(out[0], one[k][0], atol=1e-9) and np.allclose(out[1], one[k][1], atol=1e-9) and list(out[2]) == list(one[k][2])]
                chk.expect(some, "reversal: not the motion with more inliers", counts=counts, ratio=ratio, got=len(out[2]))


class Pairs:
    """What the ranking of pairs asks a data set."""

    def __init__(self, cameras, of, config):
        self.cameras, self.of, self.config = cameras, of, config

    def load_camera_models(self):
        return self.cameras

    def load_exif(self, image):
        return {"camera": self.of[image]}


def ranking(chk, rng):
    """Pairs which a rotation doesn't explain, by how many of their tracks it doesn't."""
    from opensfm import config, pymap, reconstruction

    for i in range(chk.n(24, 400)):
        cams = {k: gen.make_camera(gen.camera_params(rng, str(rng.choice(gen.MODELS)), 0.1), k) for k in ("c0", "c1")}
        images = ["im%d" % k for k in range(int(rng.integers(2, 7)))]
        of = {k: str(rng.choice(list(cams))) for k in images}
        cfg = config.default_config()
        cfg["five_point_algo_threshold"] = thr = float(rng.choice([0.002, 0.004, 0.008]))
        cfg["processes"] = int(rng.choice([1, 1, 3]))
        tracks, want = {}, {}
        for a in range(len(images)):
            for b in range(a + 1, len(images)):
                if rng.random() < 0.3:
                    continue
                n = int(rng.integers(20, 60))
                share = [0.0, rng.uniform(0.05, 0.28), rng.uniform(0.32, 0.45)][rng.integers(3)]
                out = rng.permutation(n) < int(share * n)
                Q = gen.rodrigues(rng.normal(size=3) * 0.1)
                d = unit(rng.normal(size=(n, 3)) * [0.2, 0.2, 0] + [0, 0, 1])
                e = d @ Q.T
                # within four times the threshold of a relative pose, or far from it
                side = unit(np.cross(e, rng.normal(size=(n, 3))))
                e = unit(e + side * np.where(out, 10 * thr * rng.uniform(1, 2, n), 0)[:, None])
                k = np.nonzero(~out)[0][:max(1, n // 12)]
                e[k] = unit(e[k] + side[k] * 2.7 * thr)
                p1, p2 = cams[of[images[a]]].project_many(d), cams[of[images[b]]].project_many(e)
                key = (images[a], images[b])
                tracks[key] = (["t%d" % j for j in range(n)], p1, p2)
                m = int(out.sum())
                want[key] = m if m >= 0.3 * n else 0
                if abs(m - 0.3 * n) < 1e-6:
                    want[key] = None
        chk.case("ranking", {"pairs": len(tracks), "threshold": thr, "processes": cfg["processes"]}, sig=(chk.shard, i))
        ok, got = chk.guard(lambda: reconstruction.compute_image_pairs(tracks, Pairs(cams, of, cfg)), "ranking of image pairs")
        if not ok or None in want.values():
            continue
        chk.count("pairs ranked", len(tracks))
        chk.count("pairs a rotation explains", sum(v == 0 for v in want.values()))
        chk.expect(sorted(got) == sorted(k for k, v in want.items() if v), "ranking: not the pairs which a rotation doesn't explain", got=str(got), want=str(want))
        if sorted(got) == sorted(k for k, v in want.items() if v):
            v = [want[tuple(k)] for k in got]
            chk.expect(all(x >= y for x, y in zip(v, v[1:])), "ranking: not in the order of the number of unexplained tracks", got=v)
        # the same pairs, one at a time and only those which share enough
        tm = pymap.TracksManager()
        for (a, b), (ids, p1, p2) in tracks.items():
            for j, t in enumerate(ids):
                for im, p in ((a, p1[j]), (b, p2[j])):
                    tm.add_observation(im, "%s_%s_%s" % (a, b, t), pymap.Observation(float(p[0]), float(p[1]), 0.004, 0, 0, 0, 1000 * images.index(b if im == a else a) + j))
        sizes = sorted({len(v[0]) for v in tracks.values()}) or [50]
        least = int(rng.choice(sizes + [50]))
        full = {k: v if len(tracks[k][0]) >= least else 0 for k, v in want.items()}
        args = () if least == 50 else (least,)
        ok, got = chk.guard(lambda: reconstruction.compute_image_pairs_sequential(Pairs(cams, of, cfg), tm, *args), "ranking of image pairs one at a time")
        if not ok:
            continue
        chk.count("pairs ranked one at a time", len(full))
        got = [tuple(k) if tuple(k) in full else tuple(k)[::-1] for k in got]
        if chk.expect(sorted(got) == sorted(k for k, v in full.items() if v), "ranking one at a time: not the pairs which share enough and which a rotation doesn't explain", got=str(got), want=str(full), least=least):
            v = [full[k] for k in got]
            chk.expect(all(x >= y for x, y in zip(v, v[1:])), "ranking one at a time: not in the order of the number of unexplained tracks", got=v)


def algebra(chk, rng):
    from opensfm import multiview

    for i in range(chk.n(800, 6000)):
        chk.case("algebra", {}, sig=(chk.shard, i))
        chk.count("algebra helpers")
        # plane-induced homographies
        R, t = gen.rodrigues(rng.normal(size=3) * 0.5), rng.normal(size=3)
        n, d = unit(rng.normal(size=3)), float(rng.uniform(0.5, 5))
        H = R + np.outer(t, n) / d
        H = H * rng.choice([1, -1, 2.5])
        l = np.linalg.svd(H)[1]
        ok, sols = chk.guard(lambda: multiview.motion_from_plane_homography(H), "motion from a homography")
        if ok and l[0] / l[1] > 1.001 and l[1] / l[2] > 1.001:
            chk.count("plane motions")
            if chk.expect(sols is not None and len(sols) == 8, "motion from a homography: number of motions") is not False and sols:
                chk.expect(all(rot_ok(np.array(s[0])) for s in sols), "motion from a homography: not a rotation")
                best = min(max(np.abs(s[0] - R).max(), np.linalg.norm(unit(np.array(s[1])) - unit(t))) for s in sols)
                chk.expect(best < 1e-5, "motion from a homography: the true motion is not among the solutions", gap=float(best))
                for Q, u, m, e in sols:
                    G = e * np.array(Q) - np.outer(u, m)
                    chk.expect(mat_gap(G, H) < 1e-8, "motion from a homography: a motion does not induce the homography", gap=mat_gap(G, H))
        # a camera that turns in place
        f1 = float(rng.uniform(0.4, 3))
        Q = gen.rodrigues(unit(rng.normal(size=3)) * rng.uniform(0.1, 1.5))
        D = np.diag([f1, f1, 1.0])
        turn = D @ Q @ np.linalg.inv(D) * 10 ** rng.uniform(-2, 2)
        if min(abs(Q[0, 2]), abs(Q[1, 2]), abs(Q[2, 0]), abs(Q[2, 1])) > 0.05:
            chk.close(multiview.focal_from_homography(turn), f1, 1e-6 * f1, "focal length from the homography of a turning camera")
        f2 = float(rng.uniform(0.4, 3))
        turn = np.diag([f2, f2, 1.0]) @ Q @ np.linalg.inv(D) * 10 ** rng.uniform(-2, 2)
        chk.close(multiview.R_from_homography(turn, f1, f2), Q, 1e-8, "rotation from the homography of a turning camera")
        chk.close(multiview.K_from_camera({"focal": f1}), D, 0, "calibration matrix of a camera")
        N = rng.normal(size=(3, 3))
        Z = multiview.project_to_rotation_matrix(N)
        d = np.linalg.norm(Z - N)
        chk.close(Z @ Z.T, np.eye(3), 1e-9, "projection to a rotation is not orthogonal")
        chk.expect(all(d <= np.linalg.norm(gen.rand_rotation(rng) * np.sign(np.linalg.det(N)) - N) + 1e-9 for _ in range(5)), "projection to a rotation is not the nearest one")
        N[int(rng.integers(3)), int(rng.integers(3))] = np.nan
        ok, Z = chk.guard(lambda: multiview.project_to_rotation_matrix(N), "projection of a matrix without singular values")
        chk.expect(not ok or Z is None, "projection of a matrix without singular values", got=str(Z))
        r, q = multiview.rq(turn)
        chk.close(r @ q, turn, 1e-9 * np.abs(turn).max(), "triangular times orthogonal is not the matrix")
        chk.close(np.tril(r, -1), np.zeros((3, 3)), 1e-9 * np.abs(turn).max(), "the first factor is not triangular")
        x = rng.normal(size=(4, 3)) + np.array([0, 0, 5])
        chk.close(multiview.euclidean(multiview.homogeneous(x)), x, 1e-12, "homogeneous coordinates")
        chk.close(multiview.euclidean(multiview.homogeneous(x) * -3), x, 1e-12, "homogeneous coordinates are defined up to scale")
        chk.count("turning cameras")
        # camera matrices
        K = np.array([[rng.uniform(0.5, 3), rng.normal() * 0.1, rng.normal()], [0, rng.uniform(0.5, 3), rng.normal()], [0, 0, 1.0]])
        Q, v = gen.rand_rotation(rng), rng.normal(size=3) * 4
        P = multiview.P_from_KRt(K, Q, v)
        chk.close(P, np.hstack([K @ Q, (K @ v)[:, None]]), 1e-12, "camera matrix is not K [R|t]")
        ok, out = chk.guard(lambda: multiview.KRt_from_P(P * float(rng.choice([1, 2, -1, -0.3]))), "factorization of a camera matrix")
        if ok:
            for a, b, name in zip(out, (K, Q, v), "KRt"):
                chk.close(a, b, 1e-8 * (1 + np.abs(b).max()), "factorization of a camera matrix: " + name)
        # planes
        nn, off = unit(rng.normal(size=3)), float(rng.normal() * 5)
        B = np.linalg.svd(nn[None])[2][1:]
        m = int(rng.integers(3, 12))
        pts = rng.normal(size=(m, 2)) @ B * 10 ** rng.uniform(-1, 2) - off * nn
        along = rng.normal(size=(2, 2)) @ B if rng.random() < 0.5 else None
        vert = [unit(nn * rng.choice([1, -1]) + 0.3 * rng.normal(size=3))] if rng.random() < 0.5 else None
        ok, p = chk.guard(lambda: multiview.fit_plane(pts, along, vert), "plane fit")
        s = np.linalg.svd(pts - pts.mean(0))[1]
        if ok and s[1] > 0.05 * s[0]:
            p = np.array(p)
            chk.expect(np.isrealobj(p) and np.all(np.isfinite(p)), "plane fit: not a real plane")
            p = np.real(p)
            scale = np.linalg.norm(p[:3])
            size = np.abs(pts).max() + 1
            if chk.expect(scale > 1e-6, "plane fit: no normal") is not False and scale > 1e-6:
                chk.expect(np.abs(pts @ p[:3] + p[3]).max() / scale < 1e-6 * size, "plane fit: exact points are not on the plane", distance=float(np.abs(pts @ p[:3] + p[3]).max() / scale),
                           size=float(size))
                if along is not None:
                    chk.expect(np.abs(along @ p[:3]).max() / scale < 1e-5 * np.linalg.norm(along), "plane fit: directions are not in the plane")
                if vert is not None and abs(vert[0] @ nn) > 1e-3:
                    chk.expect(p[:3] @ vert[0] > 0, "plane fit: the normal is not on the side of the vertical")
        ok, G = chk.guard(lambda: multiview.plane_horizontalling_rotation(np.concatenate([nn * 2, [1.0]])), "levelling rotation")
        if ok:
            chk.close(G @ nn, np.array([0, 0, 1.0]), 1e-9, "levelling a plane does not bring its normal up")
        # similarity between point sets
        sc, Q2, v2 = float(10 ** rng.uniform(-1, 1)), gen.rand_rotation(rng), rng.normal(size=3) * 5
        X = rng.normal(size=(int(rng.integers(8, 30)), 3))
        Y = sc * X @ Q2.T + v2
        bad = np.arange(len(X)) < (2 if rng.random() < 0.5 else 0)
        Y[bad] += rng.normal(size=(bad.sum(), 3)) * 0 + 50
        np.random.seed(int(rng.integers(2**31)))
        ok, out = chk.guard(lambda: multiview.fit_similarity_transform(X, Y, 100, 0.01), "similarity between point sets")
        if ok:
            T, inl = out
            M = np.eye(4)
            M[:3, :3], M[:3, 3] = sc * Q2, v2
            chk.close(T, M, 1e-6 * (1 + sc), "similarity between point sets: not the true similarity")
            chk.expect(sorted(np.asarray(inl).tolist()) == np.nonzero(~bad)[0].tolist(), "similarity between point sets: inliers", got=np.asarray(inl).tolist(), outliers=int(bad.sum()))
            ok, dec = chk.guard(lambda: multiview.decompose_similarity_transform(M), "decomposition of a similarity")
            if ok:
                chk.expect(abs(dec[0] - sc) < 1e-9 * sc and np.allclose(dec[1], Q2, atol=1e-9) and np.allclose(dec[2], v2), "decomposition of a similarity")
        # up vectors and compasses
        up, comp = unit(rng.normal(size=3)), float(rng.uniform(-180, 180))
        if rng.random() < 0.2:
            up = np.array([0.0, 0.0, float(rng.choice([1, -1]))])
        ok, R2 = chk.guard(lambda: multiview.rotation_matrix_from_up_vector_and_compass(up, comp), "rotation from up vector and compass")
        if ok:
            chk.expect(rot_ok(R2), "rotation from up vector and compass: not a rotation")
            chk.close(multiview.camera_up_vector(R2), up, 1e-9, "rotation from up vector and compass: up vector")
            if abs(up[2]) < 0.99:
                dd = (multiview.camera_compass_angle(R2) - comp + 180) % 360 - 180
                chk.expect(abs(dd) < 1e-5, "rotation from up vector and compass: compass", difference=dd)
        a = unit(rng.normal(size=3))
        bq = a if rng.random() < 0.1 else (-a if rng.random() < 0.1 else rng.normal(size=3))
        chk.close(multiview.vector_angle(a, bq), np.arctan2(np.linalg.norm(np.cross(a, bq)), a @ bq), 3e-8, "angle between vectors")


def run(chk):
    rng = chk.rng_for("c17")
    rate = Rate()
    small(chk, rng)
    essentials(chk, rng, rate)
    relative(chk, rng, rate)
    absolute(chk, rng, rate)
    robust(chk, rng, rate)
    two_views(chk, rng, rate)
    reversal(chk, chk.rng_for("reversal"))
    ranking(chk, chk.rng_for("ranking"))
    algebra(chk, rng)
    rate.judge(chk)
