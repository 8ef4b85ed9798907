"""C16: triangulation recovers points and rejects what its thresholds forbid."""
import numpy as np

import gen
import scenes

SHARDS = {"quick": 6, "thorough": 8}
REQUIRED = ["exact points recovered", "points returned", "points refused", "narrow angles refused", "points behind refused", "refinements", "epipolar angles",
            "tracks added", "tracks refused", "observations kept", "exact tracks recovered", "outliers left out", "control points triangulated", "bundles of rays at the horizon"]
RULE = ("one case = a bundle of rays (random, narrow, behind, beside, contradictory, at the horizon), a pair of images, or a whole scene whose tracks are "
        "triangulated; the returned points are judged by the documented limits and the true geometry; non-trivial always")
ASSUMPTIONS = ["limits are judged outside a relative margin of 1e-6",
               "points triangulated from all observations of a track are refined afterwards: their observations agree in root mean square"]


def angle(u, v):
    return float(np.arctan2(np.linalg.norm(np.cross(u, v)), u @ v))


def pair_angles(B):
    return [angle(B[i], B[j]) for i in range(len(B)) for j in range(i)]


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def bundle(rng):
    """Centers, rotations and a point seen from them."""
    n = int(rng.choice([2, 2, 3, 4, 8, 20]))
    style = str(rng.choice(["around", "around", "forward", "narrow", "sideways", "horizon", "tiny", "huge", "same center"]))
    X = rng.normal(size=3) * 3
    if style == "around":
        C = X + unit(rng.normal(size=(n, 3))) * rng.uniform(2, 20, (n, 1))
    elif style == "forward":
        d = unit(rng.normal(size=3))
        C = X - d * np.linspace(4, 12, n)[:, None] + 0.3 * rng.normal(size=(n, 3))
    elif style == "narrow":
        C = X + unit(rng.normal(size=3)) * 100 + rng.normal(size=(n, 3)) * 10.0 ** rng.uniform(-3, 0)
    elif style == "sideways":
        C = X + np.array([0.0, 0.0, -8.0]) + np.stack([np.arange(n) * 1.0, np.zeros(n), np.zeros(n)], 1)
    elif style == "horizon":
        C = X + np.stack([rng.uniform(-9, 9, n), rng.uniform(-9, 9, n), np.zeros(n)], 1)
    elif style == "tiny":
        C = X + unit(rng.normal(size=(n, 3))) * rng.uniform(0.01, 0.1, (n, 1))
    elif style == "huge":
        C = X + unit(rng.normal(size=(n, 3))) * rng.uniform(1e3, 1e5, (n, 1))
    else:
        C = np.repeat(X[None] + unit(rng.normal(size=3)) * 5, n, axis=0)
    if style in ("horizon", "sideways") and rng.random() < 0.7:
        R = [np.eye(3)] * n  # rays exactly across the axis of the cameras
    elif rng.random() < 0.5:
        R = [gen.look_at(c, X + 0.3 * rng.normal(size=3)) for c in C]
    else:
        R = [gen.rand_rotation(rng) for _ in C]
    return style, X, C, R


def judge_point(chk, what, Y, C, B, thresholds, min_angle, min_depth):
    """A returned point satisfies every limit."""
    chk.count("points returned")
    chk.expect(np.all(np.isfinite(Y)), what + ": a point that is not finite is returned", point=Y.tolist())
    if not np.all(np.isfinite(Y)):
        return
    D = Y - C
    err = [angle(d, b) for d, b in zip(D, B)]
    worst = int(np.argmax(np.array(err) - thresholds))
    chk.expect(err[worst] <= thresholds[worst] * (1 + 1e-6) + 2e-7, what + ": the returned point is off a ray by more than the threshold", angle=err[worst],
               threshold=float(thresholds[worst]), index=worst, count=len(B))
    depth = float(np.min(np.sum(D * B, axis=1)))
    chk.expect(depth >= min_depth - 1e-6 * max(1e-3, abs(min_depth), np.abs(D).max()), what + ": the returned point is nearer than the minimum depth", depth=depth, limit=min_depth)
    a = pair_angles(B)
    chk.expect(any(min_angle - 1e-7 <= x <= np.pi - min_angle + 1e-7 for x in a), what + ": a point is returned although every viewing angle is too narrow",
               angles=[min(a), max(a)], limit=min_angle)


def rays(chk, rng):
    from opensfm import pygeometry

    for i in range(chk.n(2600, 60000)):
        style, X, C, R = bundle(rng)
        n = len(C)
        D = X - C
        B = unit(D)
        thr = np.array([float(rng.choice([0.004, 0.02, 0.1, 1e-4]))] * n)
        if rng.random() < 0.3:
            thr = 10 ** rng.uniform(-4, -1, n)
        min_angle = float(np.radians(rng.choice([0.1, 1.0, 2.0, 10.0, 30.0])))
        min_depth = float(rng.choice([0.001, 0.001, 0.1, 1.0, 5.0]))
        spoil = str(rng.choice(["exact", "exact", "noise", "behind", "outlier", "reversed ray", "random"]))
        if spoil == "noise":
            B = unit(B + rng.normal(size=B.shape) * thr[:, None] * 10 ** rng.uniform(-2, 0.5))
        elif spoil == "behind":
            B = -B
        elif spoil == "outlier":
            k = rng.integers(n)
            B[k] = unit(B[k] + rng.normal(size=3) * rng.choice([0.05, 0.5]))
        elif spoil == "reversed ray":
            k = rng.integers(n)
            B[k] = -B[k]
        elif spoil == "random":
            B = unit(rng.normal(size=(n, 3)))
        chk.case("rays", {"views": n, "layout": style, "rays": spoil, "min angle": round(min_angle, 4), "min depth": min_depth}, sig=(chk.shard, i))
        if style == "horizon":
            chk.count("bundles of rays at the horizon")
        exact = unit(D)
        a = pair_angles(B)
        use = [x for x in a if min_angle * 1.001 <= x <= np.pi - min_angle * 1.001]
        parallax = max([np.sin(x) for x in pair_angles(exact)])
        sees = np.min(np.linalg.norm(D, axis=1)) > min_depth * 1.01
        cam = np.array([r @ b for r, b in zip(R, B)])
        Rts = [np.hstack([r, (-r @ c)[:, None]]) for r, c in zip(R, C)]
        # weakest equation of the linear solution
        calls = [("midpoint triangulation", lambda: pygeometry.triangulate_bearings_midpoint(C, B, [float(x) for x in thr], min_angle, min_depth), thr),
                 ("DLT triangulation", lambda: pygeometry.triangulate_bearings_dlt(Rts, cam, float(thr[0]), min_angle, min_depth), np.full(n, thr[0]))]
        for what, call, t in calls:
            ok, out = chk.guard(call, what)
            if not ok:
                continue
            if out[0]:
                judge_point(chk, what, np.array(out[1]), C, B, t, min_angle, min_depth)
            else:
                chk.count("points refused")
            if spoil == "exact":
                if use and sees and parallax > 1e-3 and style != "same center":
                    chk.expect(out[0], what + ": refuses a point seen exactly with enough parallax", layout=style, views=n, parallax=parallax,
                               depth=float(np.linalg.norm(D, axis=1).min()), limit=min_depth)
                    if out[0]:
                        chk.count("exact points recovered")
                        scale = np.abs(D).max() + np.abs(X).max()
                        chk.expect(np.linalg.norm(out[1] - X) < 1e-9 * scale / parallax**2, what + ": not the true point", error=float(np.linalg.norm(out[1] - X)),
                                   scale=float(scale), parallax=parallax, layout=style)
                elif a and max(min(x, np.pi - x) for x in a) < min_angle * 0.999 - 1e-7:
                    chk.count("narrow angles refused")
                    chk.expect(not out[0], what + ": accepts a viewing angle below the minimum", angles=max(a), limit=min_angle)
            if spoil == "behind":
                chk.count("points behind refused")
                chk.expect(not out[0], what + ": returns a point behind the cameras")
        if n == 2:
            ok, out = chk.guard(lambda: pygeometry.triangulate_two_bearings_midpoint(C, B), "two-ray triangulation")
            if ok and out[0]:
                Y = np.array(out[1])
                # the middle of the shortest segment between the lines
                A = np.stack([B[0], -B[1]], 1)
                lam = np.linalg.lstsq(A, C[1] - C[0], rcond=None)[0]
                mid = (C[0] + lam[0] * B[0] + C[1] + lam[1] * B[1]) / 2
                s = np.abs(D).max() + np.abs(C).max()
                det = 1 - (B[0] @ B[1]) ** 2
                chk.expect(np.linalg.norm(Y - mid) < 1e-9 * s / max(det, 1e-12), "two-ray triangulation: not the middle of the shortest segment", error=float(np.linalg.norm(Y - mid)))
            elif ok:
                chk.expect(1 - (B[0] @ B[1]) ** 2 < 1e-9, "two-ray triangulation: refuses rays that are not parallel", cosine=float(B[0] @ B[1]))


def many(chk, rng):
    from opensfm import pygeometry

    for i in range(chk.n(120, 2400)):
        n = int(rng.choice([1, 2, 10, 60]))
        R, t = gen.rand_rotation(rng), rng.normal(size=3) * rng.choice([0.1, 1, 10])
        X = rng.normal(size=(n, 3)) * 5
        B1 = unit(X)
        B2 = unit((X - t) @ R)  # R maps directions of the second camera to the first, t is its centre
        if rng.random() < 0.3:
            B2 = unit(B2 + 0.01 * rng.normal(size=B2.shape))
            exact = False
        else:
            exact = True
        if rng.random() < 0.2:
            B1[0] = unit(t)
            B2[0] = R.T @ unit(t)
            X[0] = np.nan
        chk.case("two views", {"points": n, "exact": exact}, sig=(chk.shard, i))
        ok, out = chk.guard(lambda: pygeometry.triangulate_two_bearings_midpoint_many(B1, B2, R, t), "triangulation of many")
        if ok:
            chk.expect(len(out) == n, "triangulation of many: number of results", got=len(out))
            for k, (good, Y) in enumerate(out):
                c = 1 - (B1[k] @ (R @ B2[k])) ** 2
                if good and exact and np.isfinite(X[k, 0]) and c > 1e-6:
                    chk.count("exact points recovered")
                    chk.expect(np.linalg.norm(Y - X[k]) < 1e-8 * (10 + np.abs(t).max()) / c, "triangulation of many: not the true point", error=float(np.linalg.norm(Y - X[k])))
                elif not good:
                    chk.expect(c < 1e-9, "triangulation of many: refuses rays that are not parallel", sine2=c)
        # symmetric epipolar angles of all pairs of rays
        m = int(rng.integers(1, 6))
        C2 = unit(np.concatenate([B2[:m], rng.normal(size=(2, 3))]))
        ok, E = chk.guard(lambda: pygeometry.epipolar_angle_two_bearings_many(B1, C2, R, t), "epipolar angles")
        if ok:
            chk.count("epipolar angles", E.size)
            chk.expect(E.shape == (n, len(C2)), "epipolar angles: shape", got=E.shape)
            W = C2 @ R.T
            ut = unit(t)
            want = np.zeros(E.shape)
            sure = np.ones(E.shape, bool)
            for a in range(n):
                for b in range(len(C2)):
                    n1, n2 = np.cross(ut, B1[a]), np.cross(ut, W[b])
                    sure[a, b] = min(np.linalg.norm(n1), np.linalg.norm(n2)) > 1e-6
                    if sure[a, b]:
                        want[a, b] = np.arcsin(min(1.0, (abs(unit(n1) @ W[b]) + abs(B1[a] @ unit(n2))) / 2))
            chk.expect(np.all(np.abs(E - want)[sure] < 1e-7), "epipolar angles differ from the angle between rays and epipolar planes", difference=float(np.abs(E - want)[sure].max(initial=0)))
            if exact:
                d = [E[k, k] for k in range(min(m, n)) if sure[k, k]]
                chk.expect(all(abs(x) < 1e-7 for x in d), "epipolar angles of matching rays are not zero", got=d[:4])


def cost(X, C, B):
    return float(np.sum((unit(X - C) - B) ** 2))


def refinement(chk, rng):
    from opensfm import pygeometry

    for i in range(chk.n(400, 8000)):
        style, X, C, R = bundle(rng)
        if style in ("same center", "narrow"):
            continue
        B = unit(X - C)
        noise = float(rng.choice([0, 0, 1e-3, 1e-2]))
        B = unit(B + noise * rng.normal(size=B.shape))
        depth = np.linalg.norm(X - C, axis=1).min()
        start = X + rng.normal(size=3) * depth * float(rng.choice([1e-3, 0.02, 0.1]))
        its = int(rng.choice([1, 5, 10, 50]))
        chk.case("refinement", {"layout": style, "views": len(C), "noise": noise, "iterations": its}, sig=(chk.shard, i))
        ok, Y = chk.guard(lambda: pygeometry.point_refinement(C, B, start, its), "point refinement")
        if not ok:
            continue
        chk.count("refinements")
        a, b = cost(start, C, B), cost(Y, C, B)
        chk.expect(np.all(np.isfinite(Y)) and b <= a * (1 + 1e-9) + 1e-18, "refining a point increases its error", before=a, after=b)
        parallax = max(np.sin(x) for x in pair_angles(unit(X - C)))
        if noise == 0 and its >= 10 and parallax > 0.1 and style != "huge":  # the solver stops at an absolute gradient
            s = np.abs(X - C).max()
            chk.expect(np.linalg.norm(Y - X) < 1e-5 * s / parallax, "refining does not find the true point", error=float(np.linalg.norm(Y - X) / s), parallax=parallax)


# ------------------------------------------------------------ tracks
def snap_points(rec):
    return {k: (p.coordinates.copy(), {s.id: s.get_observation(o) for s, o in p.get_observations().items()}) for k, p in rec.points.items()}


def tracks(chk, rng):
    from opensfm import config, pygeometry, pymap, reconstruction

    for i in range(chk.n(28, 480)):
        models = [str(rng.choice(gen.MODELS)) for _ in range(int(rng.integers(1, 3)))]
        layout = "inside" if "spherical" in models else None
        S = scenes.make(rng, models, shots=int(rng.choice([3, 3, 5, 9])), points=60, layout=layout, strength=0.3)
        kind = ["exact", "noise", "outliers"][i % 3]
        thr = float(rng.choice([0.004, 0.01]))
        bad = {}
        seen = S.seen()
        if kind == "noise":
            for s in S.obs:
                for k in S.obs[s]:
                    S.obs[s][k] = S.obs[s][k] + rng.normal(size=2) * thr * rng.choice([0.02, 0.5])
        if kind == "outliers":
            for k, ss in seen.items():
                if len(ss) >= 3:
                    m = max(1, int(0.3 * len(ss)))
                    for s in rng.permutation(ss)[:m]:
                        S.obs[s][k] = np.clip(S.obs[s][k] + unit(rng.normal(size=2)) * rng.uniform(0.08, 0.3), -0.5, 0.5)
                        bad.setdefault(k, set()).add(str(s))
        tm = S.tracks_manager()
        cfg = config.default_config()
        method = str(rng.choice(["ROBUST", "FULL", "DLT"] if kind != "outliers" else ["ROBUST", "ROBUST", "FULL"]))
        min_angle, min_depth = float(rng.choice([1.0, 1.0, 3.0])), float(rng.choice([0.001, 0.5, 3.0]))
        cfg.update(triangulation_threshold=thr, triangulation_min_ray_angle=min_angle, triangulation_min_depth=min_depth, triangulation_type=method)
        chk.case("tracks", {"models": models, "shots": len(S.shots), "tracks": kind, "method": method, "threshold": thr, "layout": S.layout}, sig=(chk.shard, i))
        rec = S.reconstruction(points=False)
        known = {}
        np.random.seed(int(rng.integers(2**31)))
        if method == "DLT":
            tri = reconstruction.TrackTriangulator(rec, reconstruction.TrackHandlerTrackManager(tm, rec))
            for t in tm.get_track_ids():
                ok, _ = chk.guard(lambda: tri.triangulate_dlt(t, thr, min_angle, min_depth, 10), "triangulation of a track")
            of = set(S.obs)
        elif rng.random() < 0.5:
            # some tracks are there already, and only some shots are asked for
            for t in sorted(tm.get_track_ids())[::4]:
                rec.create_point(t, [1.0, 2.0, 3.0])
                known[t] = [1.0, 2.0, 3.0]
            of = set(str(s) for s in rng.permutation(list(S.obs))[: int(rng.integers(1, len(S.obs) + 1))])
            chk.guard(lambda: reconstruction.triangulate_shot_features(tm, rec, of | {"not there"}, cfg), "triangulation of shots")
        else:
            for t in sorted(tm.get_track_ids())[::4]:
                rec.create_point(t, [1.0, 2.0, 3.0])
            of = set(S.obs)
            ok, report = chk.guard(lambda: reconstruction.retriangulate(tm, rec, cfg), "retriangulation")
            if ok:
                chk.expect(report["num_points_after"] == len(rec.points), "retriangulation: reported number of points", report=report, got=len(rec.points))
        got = snap_points(rec)
        for t, c in known.items():
            chk.expect(t in got and np.allclose(got[t][0], c), "triangulating shots changes a point that was there")
        tried = 0
        lost = {}
        for t in tm.get_track_ids():
            if t in known:
                continue
            obs = tm.get_track_observations(t)
            C = np.array([S.origin(s) for s in obs])
            B = np.array([S.shots[s]["R"].T @ rec.cameras[S.shots[s]["cam"]].pixel_bearing(np.array(o.point)) for s, o in obs.items()])
            ids = list(obs)
            if not set(ids) & of:
                chk.expect(t not in got, "a track of other shots is triangulated")
                continue
            tried += 1
            true = S.X[int(t)]
            wrong = bad.get(int(t), set())
            D = true - C
            good = [k for k, s in enumerate(ids) if s not in wrong]
            clear = [x for x in pair_angles(unit(D[good]))] if len(good) > 1 else []
            wide = [x for x in clear if np.radians(min_angle) * 1.05 < x < np.pi - np.radians(min_angle) * 1.05]
            far = np.min(np.sum(D * B, axis=1)[good]) > min_depth * 1.1
            if t in got:
                chk.count("tracks added")
                Y, used = got[t]
                chk.count("observations kept", len(used))
                chk.expect(set(used) <= set(ids) and len(used) >= 2, "a triangulated track has too few or foreign observations", kept=sorted(used))
                chk.expect(all(np.allclose(used[s].point, obs[s].point) and used[s].id == obs[s].id for s in used), "the observations of a point are not those of its track")
                err = np.array([angle(Y - S.origin(s), B[ids.index(s)]) for s in used])
                if method == "ROBUST":
                    chk.expect(np.all(err <= thr * 1.001), "robust triangulation keeps an observation that does not agree with the point", worst=float(err.max()), threshold=thr)
                else:
                    chk.expect(set(used) == set(ids), "triangulation of all observations does not keep them all")
                    chk.expect(np.sqrt(np.mean(err**2)) <= thr * 1.01, "triangulated point disagrees with its observations", rms=float(np.sqrt(np.mean(err**2))), threshold=thr)
                chk.expect(np.max(pair_angles(B)) >= np.radians(min_angle) * 0.999, "a track with too narrow viewing angles is triangulated")
                if kind == "exact" and wide:
                    p = max(np.sin(x) for x in wide)
                    s = np.abs(D).max()
                    chk.count("exact tracks recovered")
                    chk.expect(np.linalg.norm(Y - true) < 1e-4 * s / p, "a track is not triangulated at the true point", error=float(np.linalg.norm(Y - true)), method=method, parallax=p)
            else:
                chk.count("tracks refused")
            if kind == "exact":
                if wide and far and min(wide) > np.radians(min_angle) * 1.05:
                    chk.expect(t in got and len(got[t][1]) == len(ids), "an exactly observed track is not triangulated from all its observations", method=method,
                               there=t in got, kept=len(got[t][1]) if t in got else 0, of=len(ids))
                elif clear and max(min(x, np.pi - x) for x in clear) < np.radians(min_angle) * 0.95 or np.max(np.sum(D * B, axis=1)) < min_depth * 0.95:
                    chk.expect(t not in got, "a track below the limits is triangulated")
            if kind == "outliers" and method == "ROBUST" and wrong and len(wide) == len(clear) and len(good) >= 2 and far and min(np.sin(clear)) > 0.08:
                # which observation is bad must not matter
                key = (len(ids), tuple(sorted(ids.index(s) for s in wrong)))
                ok = t in got and set(got[t][1]) >= {ids[k] for k in good}
                if t in got:
                    chk.count("outliers left out", len(wrong - set(got[t][1])))
                if len(good) >= 3 and t in got:
                    chk.expect(len(set(got[t][1]) - wrong) >= 2, "robust triangulation follows the outliers", kept=sorted(got[t][1]))
                LOST.setdefault(len(ids) if len(wrong) > 1 else key, []).append(bool(ok))
    for key, hits in LOST.items():
        if len(hits) >= 40:
            n = sum(hits)
            chk.extreme("recovered share of tracks with outliers", -n / len(hits))
            chk.expect(n >= 0.75 * len(hits), "robust triangulation gives up tracks with a minority of bad observations", track=str(key), recovered=n, of=len(hits))


LOST = {}


def robust_positions(chk, rng):
    """A single bad observation is survived wherever in the track it is."""
    from opensfm import reconstruction

    n = 3
    for rep in range(chk.n(2, 6)):
        S = scenes.make(rng, ["perspective"], shots=n, points=160, layout="ring", strength=0.1)
        tm0 = S.tracks_manager(min_length=n)
        result = {}
        for k in range(n):
            name = sorted(S.shots)[k]
            obs = {s: dict(v) for s, v in S.obs.items()}
            for j in obs[name]:
                S.obs[name][j] = obs[name][j] + unit(rng.normal(size=2)) * 0.2
            tm = S.tracks_manager(min_length=n)
            S.obs = obs
            rec = S.reconstruction(points=False)
            chk.case("one outlier", {"position": k, "tracks": len(tm0.get_track_ids())}, sig=(chk.shard, "o", rep, k))
            tri = reconstruction.TrackTriangulator(rec, reconstruction.TrackHandlerTrackManager(tm, rec))
            np.random.seed(int(rng.integers(2**31)))
            hit = total = 0
            for t in tm.get_track_ids():
                a = [S.shots[s] for s in S.shots if s != name]
                rays_ = [unit(S.X[int(t)] + d["R"].T @ d["t"]) for d in a]
                if np.sin(angle(*rays_)) < 0.1:
                    continue
                total += 1
                tri.triangulate_robust(t, 0.004, 1.0, 0.001, 10)
                if t in rec.points:
                    kept = {s.id for s in rec.points[t].get_observations()}
                    hit += kept >= set(S.shots) - {name} and np.linalg.norm(rec.points[t].coordinates - S.X[int(t)]) < 1e-3
            if total >= 20:
                chk.count("outliers left out", hit)
                chk.extreme("recovered share, outlier at %d" % k, -hit / total)
                chk.expect(hit >= 0.85 * total, "robust triangulation gives up tracks with one bad observation", position=k, recovered=hit, of=total)


def control_points(chk, rng):
    from opensfm import multiview, pymap

    for i in range(chk.n(40, 800)):
        S = scenes.make(rng, ["spherical"] if rng.random() < 0.2 else ["perspective", "fisheye"], shots=5, points=20, layout="inside" if rng.random() < 0.2 else None, strength=0.2)
        rec = S.reconstruction(points=False)
        chk.case("control points", {"layout": S.layout}, sig=(chk.shard, i))
        for k, ss in S.seen().items():
            g = pymap.GroundControlPoint()
            g.id = str(k)
            spoil = rng.random() < 0.3
            for s in list(ss) + ["elsewhere.jpg"]:
                o = pymap.GroundControlPointObservation()
                o.shot_id = s
                o.projection = S.obs[s][k] if s in S.obs else np.array([0.1, 0.2])
                if spoil and s == ss[0]:
                    o.projection = o.projection + 0.3
                g.add_observation(o)
            thr, ang = float(rng.choice([0.02, 1.0])), float(rng.choice([1.0, 0.1]))
            ok, Y = chk.guard(lambda: multiview.triangulate_gcp(g, rec.shots, thr, ang), "triangulation of a control point")
            if not ok:
                continue
            C = np.array([S.origin(s) for s in ss])
            B = np.array([S.shots[s]["R"].T @ rec.cameras[S.shots[s]["cam"]].pixel_bearing(np.array(g.observations[n].projection)) for n, s in enumerate(ss)])
            if Y is not None:
                chk.count("control points triangulated")
                if chk.expect(len(ss) >= 2, "a control point in a single image is triangulated") is not False and len(ss) >= 2:
                    judge_point(chk, "triangulation of a control point", np.array(Y), C, B, np.full(len(C), thr), np.radians(ang), 0.001)
            if not spoil and len(ss) >= 2:
                p = max(np.sin(x) for x in pair_angles(B))
                if p > np.sin(np.radians(ang)) * 1.1:
                    chk.expect(Y is not None and np.linalg.norm(Y - S.X[k]) < 1e-5 / p, "a control point is not triangulated at its true position",
                               got=None if Y is None else [float(v) for v in Y], true=S.X[k].tolist())


def run(chk):
    rng = chk.rng_for("c16")
    rays(chk, rng)
    many(chk, rng)
    refinement(chk, rng)
    tracks(chk, rng)
    robust_positions(chk, rng)
    control_points(chk, rng)
