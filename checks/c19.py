"""C19: alignment applies one similarity to everything and finds the right one."""
import itertools

import numpy as np

import gen
import scenes
from checks import c17, c18

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["similarities applied", "reprojections compared", "inverses applied", "alignments judged", "degenerate alignments", "lines with an orientation prior", "biases judged",
            "robust fits", "overlaps resected", "merges judged", "joint alignments", "methods detected"]
RULE = ("one case = one reconstruction (random cameras, rigs, panoramas, points) moved by or aligned with known similarities, compared with the geometry computed from "
        "the truth; non-trivial = the similarity is not the identity")
ASSUMPTIONS = ["positions of a rig instance are those of the instance itself", "robust fits are run with a minority of outliers"]
METHODS = ["auto", "naive", "orientation_prior"]


def sim(rng, scale=True, size=20.0):
    s = float(np.exp(rng.uniform(-1.5, 1.5))) if scale else 1.0
    return s, gen.rand_rotation(rng), rng.normal(size=3) * size


def compose(f, g):
    """x -> f(g(x))"""
    return f[0] * g[0], f[1] @ g[1], f[0] * f[1] @ g[2] + f[2]


def inverse(f):
    return 1 / f[0], f[1].T, -f[1].T @ f[2] / f[0]


def at(f, x):
    return f[0] * f[1] @ np.asarray(x) + f[2]


def snap(rec):
    """Everything geometric in a reconstruction, and the rest."""
    geo = {"points": {k: np.array(p.coordinates) for k, p in rec.points.items()},
           "insts": {k: c18.pose_pair(i.pose) for k, i in rec.rig_instances.items()},
           "rigs": {k: c18.pose_pair(i.pose) for k, i in rec.rig_cameras.items()},
           "shots": {k: c18.pose_pair(i.pose) for k, i in rec.shots.items()},
           "panos": {k: c18.pose_pair(i.pose) for k, i in rec.pano_shots.items()}}
    other = {"cams": {k: (c.projection_type, c.get_parameters_values().tolist(), c.width, c.height) for k, c in rec.cameras.items()},
             "obs": {k: sorted(p.get_observations_id().items()) if hasattr(p, "get_observations_id") else sorted((s.id if hasattr(s, "id") else str(s), f) for s, f in p.get_observations().items())
                     for k, p in rec.points.items()},
             "colors": {k: list(p.color) for k, p in rec.points.items()},
             "links": {k: (s.camera.id, s.rig_camera_id, s.rig_instance_id) for k, s in rec.shots.items()},
             "meta": {k: (s.metadata.gps_position.value.tolist() if s.metadata.gps_position.has_value else None) for k, s in rec.shots.items()},
             "reference": (rec.reference.lat, rec.reference.lon, rec.reference.alt)}
    return geo, other


def images(rec, geo):
    """Image of every observed point by the library."""
    out = {}
    for k, p in rec.points.items():
        for s in p.get_observations():
            s = s.id if hasattr(s, "id") else s
            out[s, k] = np.array(rec.shots[s].project(np.array(p.coordinates)))
    return out


def moved(chk, f, a, b, tol, what, rigs=True):
    """Geometry b is a moved by f."""
    s, A, t = f
    size = 1 + np.linalg.norm(t) + s * max([np.linalg.norm(o) for d in ("shots", "insts") for _, o in a[d].values()] + [0])
    for k in a["points"]:
        g = np.linalg.norm(b["points"][k] - at(f, a["points"][k])) / size
        chk.extreme(what + ": points", g)
        chk.expect(g <= tol, what + ": a point is not where the similarity takes it", point=k, gap=g, similarity=f)
    for d, name in (("insts", "rig instance"), ("shots", "camera"), ("panos", "panorama")):
        for k in a[d]:
            g = np.linalg.norm(b[d][k][1] - at(f, a[d][k][1])) / size
            r = np.abs(b[d][k][0] - A @ a[d][k][0]).max()
            chk.extreme(what + ": " + d, max(g, r))
            chk.expect(g <= tol, what + ": a %s is not where the similarity takes it" % name, id=k, gap=g, similarity=f)
            chk.expect(r <= tol * 10, what + ": a %s is not turned by the similarity" % name, id=k, gap=r, similarity=f)
    if rigs:
        for k in a["rigs"]:
            g = np.linalg.norm(b["rigs"][k][1] - s * a["rigs"][k][1]) / size
            r = np.abs(b["rigs"][k][0] - a["rigs"][k][0]).max()
            chk.expect(g <= tol and r <= tol * 10, what + ": a rig camera is not just scaled", id=k, gap=g, turned=r)


def rebuild(pr, st, f):
    """The state moved by a similarity."""
    q = st.copy()
    s, A, t = f
    q.points = {k: at(f, x) for k, x in st.points.items()}
    q.insts = {k: (A @ R, at(f, o)) for k, (R, o) in st.insts.items()}
    q.rigs = {k: (R, s * o) for k, (R, o) in st.rigs.items()}
    return q


# ------------------------------------------------------------ the similarity
def applied(chk, rng):
    from opensfm import align

    for n in range(chk.n(240, 3000)):
        pr, st = c18.world(rng)
        rec = c18.to_map(rng, pr, st, {s: rng.normal(size=3) for s in pr.shots if rng.random() < 0.7}, {s: 1.0 for s in pr.shots})
        for p in rec.points.values():
            p.color = [int(v) for v in rng.integers(0, 256, 3)]
        if rng.random() < 0.4:
            for k in range(int(rng.integers(1, 3))):
                rec.create_pano_shot("pano%d" % k, list(st.cams)[0], c18.lib_pose(gen.rand_rotation(rng), rng.normal(size=3) * 5))
        before, rest = snap(rec)
        pics = images(rec, before)
        f = sim(rng, size=float(rng.choice([0, 10, 1e4])))
        kind = str(rng.choice(["any", "scale", "turn", "shift"]))
        f = {"any": f, "scale": (f[0], np.eye(3), np.zeros(3)), "turn": (1.0, f[1], np.zeros(3)), "shift": (1.0, np.eye(3), f[2])}[kind]
        chk.case("similarity", {"kind": kind, "models": sorted(set(pr.models.values())), "panoramas": len(rec.pano_shots)}, sig=(chk.shard, n))
        ok, _ = chk.guard(lambda: align.apply_similarity(rec, *f), "applying a similarity")
        if not ok:
            continue
        chk.count("similarities applied")
        after, rest2 = snap(rec)
        chk.expect(rest == rest2, "applying a similarity changed more than the geometry", changed=[k for k in rest if rest[k] != rest2[k]])
        moved(chk, f, before, after, 1e-11, "similarity applied")
        tol = 1e-7 if np.linalg.norm(f[2]) > 1e3 else 1e-9
        for key, v in images(rec, after).items():
            chk.count("reprojections compared")
            g = float(np.abs(v - pics[key]).max())
            chk.extreme("reprojection changed", g)
            if not g <= tol:
                chk.expect(abs(v[0] - pics[key][0]) > 0.9, "reprojections changed by a similarity", of=key, gap=g, similarity=f)
        g = sim(rng)
        h = inverse(f) if n % 2 else compose(inverse(f), inverse(g))
        if n % 2 == 0:
            align.apply_similarity(rec, *g)
            h = inverse(compose(g, f))
        align.apply_similarity(rec, *h)
        chk.count("inverses applied")
        back, _ = snap(rec)
        moved(chk, (1.0, np.eye(3), np.zeros(3)), before, back, 1e-8 if np.linalg.norm(f[2]) > 1e3 else 1e-10, "inverse applied")


# ---------------------------------------------------------------- alignments
def settings(rng, **over):
    from opensfm import config

    c = config.default_config()
    c.update(over)
    return c


def control(rng, pr, truth, topo, n, altitude=True, noise=0.0):
    """Control points seen in all images they can be."""
    from opensfm import pymap

    out = []
    while len(out) < n:
        X = rng.uniform(-1, 1, 3)
        g = pymap.GroundControlPoint()
        g.id = "g%d" % len(out)
        lat, lon, alt = topo.to_lla(*X)
        g.lla = {"latitude": lat, "longitude": lon, "altitude": alt}
        g.has_altitude = altitude
        k = 0
        for s in pr.shots:
            R, o = pr.shot_pose(truth, s)
            Y = (X - o) @ R
            if Y[2] > 0.5 or pr.models[pr.shots[s][1]] == "spherical":
                ob = pymap.GroundControlPointObservation()
                ob.shot_id = s
                ob.projection = gen.reference_project(truth.cams[pr.shots[s][1]], Y[None])[0]
                g.add_observation(ob)
                k += 1
        if k >= 2:
            out.append(g)
    return out


def judge_back(chk, rec, first, truth_map, res, what, tol=1e-6, **data):
    """The reconstruction is at the truth and what is returned takes it there."""
    got, _ = snap(rec)
    want, _ = snap(truth_map)
    if not chk.expect(res is not None, what + ": no similarity was found", **data):
        return
    s, A, b = res
    if not chk.expect(np.isfinite(s) and s > 0 and np.abs(A @ A.T - np.eye(3)).max() < 1e-6 and np.linalg.det(A) > 0, what + ": the result is not a similarity", result=res, **data):
        return
    moved(chk, (s, A, b), first, got, 1e-9, what + " (as returned)")
    moved(chk, (1.0, np.eye(3), np.zeros(3)), want, got, tol, what)


def exact(chk, rng):
    """Exact positions lead back to the truth."""
    from opensfm import align, geo

    R = scenes.REF
    topo = geo.TopocentricConverter(R["latitude"], R["longitude"], R["altitude"])
    for n in range(chk.n(320, 4000)):
        models = [m for m in [str(rng.choice(gen.MODELS)) for _ in range(2)]]
        rigs = int(rng.choice([1, 1, 2]))
        pr, truth = c18.world(rng, models=models[:1 + (rigs > 1)], rigs=rigs, insts=int(rng.integers(4, 8)), points=12)
        big = float(rng.choice([1.0, 1.0, 20.0]))  # kilometres are reached by the largest
        grow = (big, np.eye(3), np.zeros(3))
        several = len({pr.shots[s][0] for s in pr.shots}) < len(pr.shots)
        use = str(rng.choice(["gps", "gcp", "both", "some gps"]))
        if use in ("gcp", "both") and big != 1:
            big, grow = 1.0, (1.0, np.eye(3), np.zeros(3))
        truth = rebuild(pr, truth, grow)
        f = sim(rng, scale=not several)
        start = rebuild(pr, truth, inverse(f))
        # rigs keep their size when they are not scaled
        gps = {}
        if use != "gcp":
            for i in truth.insts:
                if use == "some gps" and len(gps) >= 4 and rng.random() < 0.5:
                    continue
                mine = [s for s in pr.shots if pr.shots[s][0] == i]
                off = rng.normal(size=(len(mine), 3)) * float(rng.choice([0.0, 0.3])) * (use != "both")
                off -= off.mean(0)  # the receivers of a rig disagree around its position
                for s, d in zip(mine, off):
                    gps[s] = truth.insts[i][1] + d
        rec = c18.to_map(rng, pr, start, gps, {s: 5.0 for s in gps})
        for s in pr.shots:
            rec.shots[s].metadata.orientation.value = 1
        want = c18.to_map(rng, pr, truth)
        gs = control(rng, pr, truth, topo, int(rng.integers(4, 7))) if use in ("gcp", "both") else []
        method = str(rng.choice(["auto", "naive"]))
        used = np.array([truth.insts[i][1] for i in {pr.shots[s][0] for s in gps}] or [np.zeros(3)])
        if use != "gcp" and (len(used) < 3 or np.linalg.svd(used - used.mean(0))[1][1] < 0.5 * big):
            continue
        c = settings(rng, align_method=method, bundle_use_gcp=bool(gs))
        first, _ = snap(rec)
        chk.case("exact alignment", {"method": method, "from": use, "rigs": several, "size": big}, sig=(chk.shard, n))
        via = int(rng.integers(3))
        override = bool(rng.integers(2))
        ok, res = chk.guard(lambda: align.align_reconstruction(rec, gs, c, use_gps=use != "gcp", bias_override=override), "aligning a reconstruction")
        if ok:
            chk.count("alignments judged")
            judge_back(chk, rec, first, want, res, "alignment to exact positions", 1e-4 if gs else 1e-8, use=use, method=method, rigs=several)


def flat(chk, rng):
    """Control points without altitude: the horizontal position is found."""
    from opensfm import align, geo

    R = scenes.REF
    topo = geo.TopocentricConverter(R["latitude"], R["longitude"], R["altitude"])
    for n in range(chk.n(60, 800)):
        pr, truth = c18.world(rng, models=[str(rng.choice(gen.MODELS))], rigs=1, insts=int(rng.integers(4, 8)), points=8)
        a = float(rng.uniform(-np.pi, np.pi))
        t = np.append(rng.uniform(-20, 20, 2), 0.0)
        f = (float(np.exp(rng.uniform(-1.5, 1.5))), gen.rodrigues(np.array([0, 0, a])), t)
        rec = c18.to_map(rng, pr, rebuild(pr, truth, inverse(f)), {}, {})
        want = c18.to_map(rng, pr, truth)
        gs = control(rng, pr, truth, topo, int(rng.integers(4, 9)), altitude=False)
        first, _ = snap(rec)
        chk.case("control points without altitude", {"points": len(gs), "turn": a, "scale": f[0]}, sig=(chk.shard, n))
        ok, res = chk.guard(lambda: align.align_reconstruction(rec, gs, settings(rng, align_method="naive", bundle_use_gcp=True), use_gps=bool(rng.integers(2))),
                            "aligning to control points without altitude")
        if ok:
            chk.count("alignments judged")
            judge_back(chk, rec, first, want, res, "alignment to control points without altitude", 1e-3, points=len(gs))


def noisy(chk, rng):
    """With errors in the positions the result is near the best one."""
    from opensfm import align

    for n in range(chk.n(80, 800)):
        pr, truth = c18.world(rng, rigs=1, insts=int(rng.integers(5, 9)), points=8)
        truth.rigs = {r: (np.eye(3), np.zeros(3)) for r in truth.rigs}
        P = np.array([o for _, o in truth.insts.values()])
        if np.linalg.svd(P - P.mean(0))[1][2] < 0.8:
            continue
        f = sim(rng)
        start = rebuild(pr, truth, inverse(f))
        sd = float(rng.choice([0.01, 0.05]))
        gps = {s: truth.insts[pr.shots[s][0]][1] + sd * rng.normal(size=3) for s in pr.shots}
        rec = c18.to_map(rng, pr, start, gps, {s: 5.0 for s in gps})
        c = settings(rng, align_method="naive")
        chk.case("noisy alignment", {"sd": sd}, sig=(chk.shard, n))
        res = align.align_reconstruction(rec, [], c)
        chk.count("alignments judged")
        if not chk.expect(res is not None, "alignment with noise: no similarity"):
            continue
        X = np.array([start.insts[pr.shots[s][0]][1] for s in pr.shots])
        Y = np.array([gps[s] for s in pr.shots])
        e = np.sqrt(np.mean(np.sum((Y - res[0] * X @ res[1].T - res[2]) ** 2, 1)))
        e0 = np.sqrt(np.mean(np.sum((Y - f[0] * X @ f[1].T - f[2]) ** 2, 1)))
        chk.extreme("error of the fit over that of the truth", e / e0)
        chk.expect(e <= e0 * 1.1, "alignment with noise: the fit is worse than the truth", fit=e, truth=e0)
        chk.expect(np.linalg.norm(np.mean(Y - res[0] * X @ res[1].T - res[2], 0)) <= 1e-6, "alignment with noise: the fit is shifted")


def few(chk, rng):
    """One or two positions, equal ones, none; nothing turns into nonsense."""
    from opensfm import align, geo

    R = scenes.REF
    topo = geo.TopocentricConverter(R["latitude"], R["longitude"], R["altitude"])
    for n in range(chk.n(160, 2000)):
        pr, truth = c18.world(rng, rigs=int(rng.choice([1, 1, 2])), insts=int(rng.integers(1, 5)), points=5)
        several = len({pr.shots[s][0] for s in pr.shots}) < len(pr.shots)
        insts = list(truth.insts)
        kind = str(rng.choice(["none", "one", "two", "equal", "coincident", "all equal", "no orientation"]))
        f = sim(rng, scale=not several)
        start = rebuild(pr, truth, inverse(f))
        if kind in ("coincident", "all equal"):
            o = rng.normal(size=3)
            start.insts = {i: (Ri, o) for i, (Ri, _) in start.insts.items()}
        have = {"none": [], "one": insts[:1], "two": insts[:2], "equal": insts, "coincident": insts, "all equal": insts, "no orientation": insts}[kind]
        same = rng.normal(size=3) * 10
        gps = {s: (same if kind in ("equal", "all equal") else truth.insts[pr.shots[s][0]][1]) for s in pr.shots if pr.shots[s][0] in have}
        rec = c18.to_map(rng, pr, start, gps, {s: 5.0 for s in gps})
        if kind != "no orientation":
            for s in pr.shots:
                rec.shots[s].metadata.orientation.value = int(rng.integers(1, 9))
        method = str(rng.choice(METHODS))
        c = settings(rng, align_method=method, align_orientation_prior=str(rng.choice(["no_roll", "horizontal", "vertical"])))
        first, _ = snap(rec)
        chk.case("few positions", {"kind": kind, "method": method, "instances": len(insts), "rigs": several}, sig=(chk.shard, n))
        with np.errstate(all="ignore"):
            ok, res = chk.guard(lambda: align.align_reconstruction(rec, [], c), "aligning with few positions")
        if not ok:
            continue
        chk.count("degenerate alignments")
        last, _ = snap(rec)
        fine = all(np.all(np.isfinite(np.concatenate([v[0].ravel(), v[1]]))) for v in last["shots"].values()) and all(np.all(np.isfinite(p)) for p in last["points"].values())
        if not chk.expect(fine, "alignment with few positions: the geometry is not finite any more", kind=kind, method=method, result=res):
            continue
        if res is None:
            moved(chk, (1.0, np.eye(3), np.zeros(3)), first, last, 1e-12, "nothing to align to")
            chk.expect(not (method == "naive" and have), "positions were ignored", kind=kind, method=method) if kind not in ("coincident", "all equal") else None
            continue
        s, A, b = res
        chk.expect(s > 0 and np.isfinite(s) and np.abs(A @ A.T - np.eye(3)).max() < 1e-6 and np.linalg.det(A) > 0, "alignment with few positions: not a similarity", result=res, kind=kind)
        moved(chk, (s, A, b), first, last, 1e-9, "few positions (as returned)")
        if several:
            chk.close(s, 1.0, 1e-9, "a reconstruction with rigs was scaled")
        if kind == "one" and method != "naive":
            g = np.linalg.norm(last["insts"][insts[0]][1] - gps[next(k for k in pr.shots if pr.shots[k][0] == insts[0])])
            chk.expect(g <= 1e-6, "a single position is not met", gap=g, method=method)
        if kind in ("one", "two") and method == "naive":
            for i in have:
                g = np.linalg.norm(last["insts"][i][1] - truth.insts[i][1])
                chk.expect(g <= 1e-6, "one or two positions are not met", gap=g, kind=kind)
            if kind == "one" or len(have) == 1:
                chk.expect(np.abs(A - np.eye(3)).max() <= 1e-9 and abs(s - 1) <= 1e-9, "more than a shift for a single position", result=res)
        if kind in ("equal", "all equal") and method == "naive":
            chk.expect(np.abs(A - np.eye(3)).max() <= 1e-9 and abs(s - 1) <= 1e-9, "more than a shift for equal positions", result=res)


# stored image axes in terms of the upright picture: right, down
UPRIGHT = {1: ("x", "y"), 3: ("-x", "-y"), 6: ("-y", "x"), 8: ("y", "-x")}


def stored(right, down, front, tag):
    """World to camera rotation of the stored image of an upright picture."""
    # EXIF: the first row is at the top (1), bottom (3), right (6) or left (8) of the picture
    if tag == 1:
        x, y = right, down
    elif tag == 3:
        x, y = -right, -down
    elif tag == 6:
        x, y = down, -right
    else:
        x, y = -down, right
    return np.array([x, y, front])


def lines(chk, rng):
    """Cameras along a line: the orientation of the images decides the rest."""
    from opensfm import align

    for n in range(chk.n(240, 3000)):
        prior = str(rng.choice(["no_roll", "horizontal", "vertical"]))
        insts = int(rng.integers(2, 9))
        pr, truth = c18.world(rng, models=[str(rng.choice(gen.MODELS))], rigs=1, insts=insts, points=10)
        truth.rigs = {r: (np.eye(3), np.zeros(3)) for r in truth.rigs}
        flat = bool(rng.random() < 0.3) and insts > 3
        a = rng.uniform(0, 2 * np.pi)
        base = rng.normal(size=3) * 50
        where = np.sort(rng.uniform(0, 30, insts)) + np.arange(insts)
        tags = {}
        one = rng.random() < 0.7
        tag0 = int(rng.choice([1, 3, 6, 8]))
        for k, i in enumerate(truth.insts):
            o = base + where[k] * np.array([np.cos(a), np.sin(a), 0])
            if flat:
                o = base + np.array([*rng.uniform(-20, 20, 2), 0])
            y = rng.uniform(0, 2 * np.pi)
            ahead = np.array([np.sin(y), np.cos(y), 0])
            right = np.array([np.cos(y), -np.sin(y), 0])
            up = np.array([0, 0, 1.0])
            tilt = {"no_roll": rng.uniform(-0.7, 0.7), "horizontal": 0.0, "vertical": -np.pi / 2}[prior]
            front = np.cos(tilt) * ahead + np.sin(tilt) * up
            down = np.cross(front, right)
            tag = tag0 if one else int(rng.choice([1, 3, 6, 8]))
            truth.insts[i] = (stored(right, down, front, tag).T, o)
            tags[i] = tag
        f = sim(rng)
        start = rebuild(pr, truth, inverse(f))
        gps = {s: truth.insts[pr.shots[s][0]][1] for s in pr.shots}
        rec = c18.to_map(rng, pr, start, gps, {s: 5.0 for s in gps})
        for s in pr.shots:
            rec.shots[s].metadata.orientation.value = tags[pr.shots[s][0]]
        want = c18.to_map(rng, pr, truth)
        method = str(rng.choice(["orientation_prior"] if flat else ["auto", "orientation_prior"]))
        c = settings(rng, align_method=method, align_orientation_prior=prior)
        first, _ = snap(rec)
        chk.case("line", {"prior": prior, "method": method, "tags": sorted(set(tags.values())), "cameras": insts, "flat": flat}, sig=(chk.shard, n))
        ok, res = chk.guard(lambda: align.align_reconstruction(rec, [], c), "aligning cameras on a line")
        if ok:
            chk.count("lines with an orientation prior")
            judge_back(chk, rec, first, want, res, "line with %s" % prior, 1e-6, tags=tags, method=method, cameras=insts)


def biases(chk, rng):
    """Positions biased per camera are recognised from control points."""
    from opensfm import align, geo

    R = scenes.REF
    topo = geo.TopocentricConverter(R["latitude"], R["longitude"], R["altitude"])
    for n in range(chk.n(64, 640)):
        pr, truth = c18.world(rng, models=["perspective", str(rng.choice(gen.MODELS))], rigs=1, insts=int(rng.integers(8, 12)), points=5)
        truth.rigs = {r: (np.eye(3), np.zeros(3)) for r in truth.rigs}
        # alternate the cameras
        pr.shots = {s: (i, "c%d" % (k % 2), r) for k, (s, (i, c, r)) in enumerate(pr.shots.items())}
        pr.obs = []
        f = sim(rng)
        start = rebuild(pr, truth, inverse(f))
        B = {c: (float(np.exp(rng.normal() * 0.02)), gen.rodrigues(rng.normal(size=3) * 0.05), rng.normal(size=3)) for c in pr.models}
        gps = {s: at(inverse(B[pr.shots[s][1]]), truth.insts[pr.shots[s][0]][1]) for s in pr.shots}
        ok = True
        for c in pr.models:
            P = np.array([gps[s] for s in gps if pr.shots[s][1] == c])
            sv = np.linalg.svd(P - P.mean(0))[1]
            ok &= sv[1] > 0.5
        if not ok:
            continue
        rec = c18.to_map(rng, pr, start, gps, {s: 5.0 for s in gps})
        want = c18.to_map(rng, pr, truth)
        gs = control(rng, pr, truth, topo, 5)
        c = settings(rng, bundle_use_gcp=True, bundle_compensate_gps_bias=True, align_method=str(rng.choice(["auto", "naive"])))
        first, _ = snap(rec)
        chk.case("bias", {"models": sorted(pr.models.values())}, sig=(chk.shard, n))
        ok, res = chk.guard(lambda: align.align_reconstruction(rec, gs, c, bias_override=True), "aligning with biased positions")
        if not ok:
            continue
        chk.count("biases judged")
        judge_back(chk, rec, first, want, res, "control points with biased positions", 1e-4)
        for cam in pr.models:
            b = rec.biases[cam]
            for s in gps:
                if pr.shots[s][1] == cam:
                    g = np.linalg.norm(np.asarray(b.transform(gps[s])) - truth.insts[pr.shots[s][0]][1])
                    chk.extreme("bias", g)
                    chk.expect(g <= 1e-4, "the bias of a camera does not take its positions to the truth", camera=cam, gap=g)


def methods(chk, rng):
    """The method fits the spread of the positions."""
    from opensfm import align

    for n in range(chk.n(160, 2000)):
        pr, truth = c18.world(rng, rigs=1, insts=int(rng.integers(1, 8)), points=4)
        d = gen.rand_rotation(rng)[0]
        wide = float(rng.choice([0.0, 1e-3, 0.1, 1.0]))
        P = rng.normal(size=(len(truth.insts), 1)) * 10 * d + wide * rng.normal(size=(len(truth.insts), 3)) + rng.normal(size=3) * float(rng.choice([0, 100]))
        truth.insts = {i: (Ri, P[k]) for k, (i, (Ri, _)) in enumerate(truth.insts.items())}
        gps = {s: truth.insts[pr.shots[s][0]][1] for s in pr.shots}
        rec = c18.to_map(rng, pr, truth, gps, {s: 5.0 for s in gps})
        ev = np.sort(np.linalg.svd(P - P.mean(0))[1] ** 2)[::-1] if len(P) > 1 else np.zeros(3)
        ev = np.concatenate([ev, np.zeros(3)])[:3]
        ratio = ev[0] / ev[1] if ev[1] > 0 else np.inf
        chk.case("method", {"positions": len(P), "width": wide}, sig=(chk.shard, n))
        with np.errstate(all="ignore"):
            ok, got = chk.guard(lambda: align.detect_alignment_constraints(settings(rng), rec, [], True), "detecting the method")
        if not ok:
            continue
        chk.count("methods detected")
        if len(P) < 3 or ratio > 6e3 or ev[1] < 1e-12:
            want = "orientation_prior"
        elif ratio < 4e3 and ev[1] > 1e-8:
            want = "naive"
        else:
            continue
        chk.expect(got == want, "the method does not fit the positions", got=got, expected=want, spread=ev.tolist(), positions=len(P))
        none = align.detect_alignment_constraints(settings(rng), rec, [], False)
        chk.expect(none == "orientation_prior", "positions are used although they are turned off", got=none)
        off = align.detect_alignment_constraints(settings(rng, bundle_use_gps=False), rec, [], True)
        chk.expect(off == "orientation_prior", "positions are used although they are turned off", got=off)


# ------------------------------------------------------------------ overlaps
def robust(chk, rng):
    from opensfm import multiview

    for n in range(chk.n(160, 2000)):
        k = int(rng.integers(8, 120))
        dim = int(rng.choice([2, 3, 3]))
        bad = rng.random(k) < float(rng.choice([0, 0.2, 0.4]))
        noise = float(rng.choice([0, 0, 1e-3]))
        s = float(np.exp(rng.uniform(-1, 1)))
        A = gen.rand_rotation(rng)
        if dim == 2:
            a = rng.uniform(0, 7)
            A = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        b = rng.normal(size=dim) * 10
        X = rng.normal(size=(k, dim)) * 3
        if rng.random() < 0.3:
            X[:, -1] = 0.0 if dim == 3 else X[:, -1]
        Y = s * X @ A.T + b + noise * rng.normal(size=X.shape)
        thr = float(rng.choice([0.05, 0.5]))
        Y[bad] += np.sign(rng.normal(size=(bad.sum(), dim))) * rng.uniform(3, 30, (bad.sum(), dim))
        if (~bad).sum() < max(8, 0.5 * k):
            continue
        np.random.seed(int(rng.integers(2**31)))
        chk.case("robust similarity", {"points": k, "dimension": dim, "outliers": int(bad.sum()), "noise": noise}, sig=(chk.shard, n))
        ok, r = chk.guard(lambda: multiview.fit_similarity_transform(X, Y, max_iterations=300, threshold=thr), "fitting a similarity")
        if not ok:
            continue
        chk.count("robust fits")
        T, inl = r
        if not chk.expect(np.shape(T) == (dim + 1, dim + 1), "robust similarity: no transform returned", shape=np.shape(T)):
            continue
        e = np.linalg.norm(Y - X @ T[:dim, :dim].T - T[:dim, dim], axis=1)
        clear = np.abs(e - thr) > 1e-9
        chk.expect(set(np.nonzero((e < thr) & clear)[0]) <= set(int(v) for v in inl) <= set(np.nonzero((e < thr) | ~clear)[0]), "robust similarity: inliers are not those within the threshold")
        chk.expect(set(np.nonzero(~bad)[0]) <= set(int(v) for v in inl), "robust similarity: correspondences without error are left out", missing=int((~bad).sum()) - len(inl))
        chk.expect(not (set(int(v) for v in inl) & set(np.nonzero(bad)[0])), "robust similarity: outliers are taken in")
        ok, d = chk.guard(lambda: multiview.decompose_similarity_transform(T), "decomposing a similarity")
        if ok:
            tol = 1e-8 if noise == 0 else 0.02
            chk.close(d[0], s, tol, "robust similarity: scale", rel=True)
            chk.expect(np.abs(d[1] - A).max() <= tol * 2, "robust similarity: rotation", got=d[1], expected=A)
            chk.expect(np.abs(d[2] - b).max() <= tol * 20, "robust similarity: translation", got=d[2], expected=b)


def halves(rng, shots=8, points=120, share=0.5, models=("perspective",)):
    """Two overlapping parts of one scene with points of their own."""
    S = scenes.make(rng, models=models, shots=shots, points=points, layout=str(rng.choice(["ring", "nadir"])))
    S.observe()
    return S


def part(rng, S, f, names, rename, tm_noise=0.0):
    """The part of a scene seen by some shots, moved; its points renamed."""
    from opensfm import geo, pymap, types

    rec = types.Reconstruction()
    R = scenes.REF
    rec.reference = geo.TopocentricConverter(R["latitude"], R["longitude"], R["altitude"])
    tm = pymap.TracksManager()
    for c in {S.shots[s]["cam"] for s in names}:
        rec.add_camera(gen.make_camera(S.cams[c], c))
    for s in names:
        d = S.shots[s]
        shot = rec.create_shot(s, d["cam"], c18.lib_pose(f[1] @ d["R"].T, at(f, S.origin(s))))
        shot.metadata.gps_position.value = S.origin(s)
        shot.metadata.gps_accuracy.value = 1.0
        shot.metadata.orientation.value = 1
    for k, ss in S.seen().items():
        ss = [s for s in ss if s in names]
        if len(ss) < 2:
            continue
        rec.create_point(rename(k), at(f, S.X[k])).color = [1, 2, 3]
        for s in ss:
            o = S.observation(s, k)
            rec.add_observation(s, rename(k), o)
            tm.add_observation(s, rename(k), o)
    return rec, tm


def overlaps(chk, rng):
    from opensfm import multiview, reconstruction

    for n in range(chk.n(64, 640)):
        S = halves(rng, shots=int(rng.integers(6, 10)), points=200)
        names = list(S.shots)
        cut = int(rng.integers(2, 4))
        mid = len(names) // 2
        f, g = sim(rng, size=5), sim(rng, size=5)
        r1, t1 = part(rng, S, f, names[:mid + cut - 1], lambda k: "a%d" % k)
        r2, t2 = part(rng, S, g, names[mid - 1:], lambda k: "b%d" % (7 * k))
        both = {k for k in range(len(S.X)) if "a%d" % k in r1.points and "b%d" % (7 * k) in r2.points and any(k in S.obs[s] for s in set(r1.shots) & set(r2.shots))}
        if len(both) < 15:
            continue
        h = compose(g, inverse(f))
        bad = set()
        for k in sorted(both):
            if rng.random() < 0.2:
                bad.add(k)
                p = r2.points["b%d" % (7 * k)]
                p.coordinates = np.array(p.coordinates) + g[0] * rng.normal(size=3) * 5 + np.sign(rng.normal(size=3)) * g[0] * 2
        chk.case("overlap", {"common": len(both), "outliers": len(bad)}, sig=(chk.shard, n))
        np.random.seed(int(rng.integers(2**31)))
        ok, common = chk.guard(lambda: reconstruction.compute_common_tracks(r1, r2, t1, t2), "finding common tracks")
        if ok:
            got = {(a, b) for a, b in common}
            chk.expect(got == {("a%d" % k, "b%d" % (7 * k)) for k in both}, "common tracks are not those of the same features", missing=len(both) - len(got), extra=len(got) - len(both))
        ok, r = chk.guard(lambda: reconstruction.resect_reconstruction(r1, r2, t1, t2, 0.05 * g[0], 10), "resecting a reconstruction")
        if not ok:
            continue
        chk.count("overlaps resected")
        good, T, inl = r
        if chk.expect(good, "overlapping reconstructions are not related"):
            s, A, b = multiview.decompose_similarity_transform(T)
            chk.close(s, h[0], 1e-6, "overlap: scale", rel=True)
            chk.expect(np.abs(A - h[1]).max() <= 1e-6, "overlap: rotation", got=A, expected=h[1])
            chk.expect(np.abs(b - h[2]).max() <= 1e-4 * (1 + h[0] * 10), "overlap: translation", got=b, expected=h[2])
            chk.expect({(a, b) for a, b in inl} == {("a%d" % k, "b%d" % (7 * k)) for k in both - bad}, "overlap: inliers are not the correct correspondences", got=len(inl), expected=len(both - bad))


def merges(chk, rng):
    from opensfm import reconstruction

    for n in range(chk.n(32, 320)):
        S = halves(rng, shots=int(rng.integers(8, 12)), points=150)
        names = list(S.shots)
        parts = int(rng.choice([2, 3]))
        apart = bool(rng.random() < 0.25)
        groups = []
        if parts == 2:
            m = len(names) // 2
            groups = [names[:m + 1], names[m - 1:]]
        else:
            m = len(names) // 3
            groups = [names[:m + 1], names[m - 1:2 * m + 1], names[2 * m - 1:]]
        P = np.array([S.origin(s) for s in names])
        if np.linalg.svd(P - P.mean(0))[1][1] < 0.5:
            continue
        recs = []
        for j, g in enumerate(groups):
            f = sim(rng, size=5)
            rename = (lambda k, j=j: "%d_%d" % (j, k)) if apart and j == parts - 1 else str
            recs.append(part(rng, S, f, g, rename)[0])
        inter = [[len(set(a.points) & set(b.points)) for b in recs] for a in recs]
        if any(0 < inter[i][j] < 20 for i in range(parts) for j in range(parts)):
            continue
        np.random.seed(int(rng.integers(2**31)))
        want_shots = [sorted(r.shots) for r in recs]
        want_points = [set(r.points) for r in recs]
        chk.case("merge", {"parts": parts, "one apart": apart}, sig=(chk.shard, n))
        c = settings(rng, align_method="naive")
        ok, out = chk.guard(lambda: reconstruction.merge_reconstructions(recs, c), "merging reconstructions")
        if not ok:
            continue
        chk.count("merges judged")
        # connected parts
        group = list(range(parts))
        for i in range(parts):
            for j in range(parts):
                if inter[i][j]:
                    group = [group[i] if v == group[j] else v for v in group]
        chk.expect(len(out) == len(set(group)), "merging left a different number of reconstructions", got=len(out), expected=len(set(group)))
        all_shots = sorted(s for r in out for s in r.shots)
        for q in set(group):
            shots = {s for i in range(parts) if group[i] == q for s in want_shots[i]}
            points = set().union(*[want_points[i] for i in range(parts) if group[i] == q])
            m = [r for r in out if set(r.shots) == shots]
            if not chk.expect(len(m) >= 1, "merging lost or mixed shots", expected=sorted(shots), got=[sorted(r.shots) for r in out]):
                continue
            r = m[0]
            chk.expect(set(r.points) == points, "merging lost or invented points", missing=len(points - set(r.points)), extra=len(set(r.points) - points))
            if sum(v == q for v in group) < 2:
                continue
            for p in r.points.values():
                k = int(p.id.split("_")[-1])
                o = p.get_observations()
                seen = {s.id if hasattr(s, "id") else s for s in o}
                chk.expect(len(seen) >= 2, "a merged point lost its observations", point=p.id, seen=sorted(seen))
                g = np.linalg.norm(np.array(p.coordinates) - S.X[k])
                chk.extreme("merged point off", g)
                chk.expect(g <= 1e-5, "a merged point is not at its place", point=p.id, gap=g)
                for s in seen:
                    e = np.abs(np.array(r.shots[s].project(np.array(p.coordinates))) - S.obs[s][k]).max()
                    chk.expect(e <= 1e-5, "a merged point does not project to its observation", point=p.id, shot=s, gap=e)
            for s in r.shots:
                g = np.linalg.norm(np.array(r.shots[s].pose.get_origin()) - S.origin(s))
                chk.extreme("merged shot off", g)
                chk.expect(g <= 1e-5, "a merged shot is not at its place", shot=s, gap=g)


def scattered(chk, rng):
    """Several merges in one call, parts left over, and parts that contradict each other:
    every part ends in one reconstruction of the result, with all its shots and points."""
    from opensfm import reconstruction

    for n in range(chk.n(24, 240)):
        S = halves(rng, shots=int(rng.integers(14, 20)), points=260)
        names = list(S.shots)
        recs, cluster = [], []

        def add(group, rename, q):
            recs.append(part(rng, S, sim(rng, size=5), group, rename)[0])
            cluster.append(q)

        clash = n % 2 == 1
        if clash:
            m = len(names) // 2
            add(names[:m + 1], str, 0)
            K = names[m + 1:]
            J = names[m - 1:m + 3]
            shared = S.seen()
            ours = [k for k, ss in shared.items() if sum(s in K for s in ss) >= 2]
            first = set(recs[0].points)
            also = [k for k in ours if sum(s in J for s in shared[k]) >= 2 and str(k) not in first]
            rng.shuffle(also)
            keep = set(also[:int(rng.integers(12, 18))])
            free = sorted(first)
            rng.shuffle(free)
            others = [k for k in ours if k not in keep]
            name = {k: str(k) for k in keep}
            name.update({k: (free[i] if i < len(free) else "own_%d" % k) for i, k in enumerate(others)})
            add(K, name.get, 0)
            add(J, str, 0)
        else:
            k = 0
            while len(names) - k >= 4:
                size = int(rng.integers(4, 7)) if rng.random() < 0.7 else 3
                g = names[k:k + size]
                k += size
                q = len(set(cluster))
                rename = lambda p, q=q: "%d_%d" % (q, p)
                if len(g) >= 4:
                    h = len(g) // 2
                    add(g[:h + 1], rename, q)
                    add(g[h - 1:], rename, q)
                else:
                    add(g, rename, q)
            order = [int(v) for v in rng.permutation(len(recs))]
            recs, cluster = [recs[v] for v in order], [cluster[v] for v in order]
        if len(recs) < 3 or any(len(r.points) < 20 for r in recs):
            continue
        shots = [set(r.shots) for r in recs]
        points = [set(r.points) for r in recs]
        pairs = [(i, j) for i in range(len(recs)) for j in range(i) if cluster[i] == cluster[j]]
        if not clash and any(len(points[i] & points[j]) < 20 for i, j in pairs):
            continue
        chk.case("several merges", {"parts": len(recs), "contradicting": clash}, sig=(chk.shard, n))
        np.random.seed(int(rng.integers(2**31)))
        c = settings(rng, align_method="naive")
        ok, out = chk.guard(lambda: reconstruction.merge_reconstructions(list(recs), c), "merging reconstructions")
        if not ok:
            continue
        chk.count("merges judged")
        homes = []
        for i in range(len(recs)):
            home = [k for k, r in enumerate(out) if shots[i] <= set(r.shots) and points[i] <= set(r.points)]
            homes.append(home)
            chk.expect(len(home) >= 1, "merging lost shots or points of a part", part=i, out=[sorted(r.shots) for r in out])
        total = sorted(s for r in out for s in r.shots)
        if clash:
            chk.count("merges with contradicting parts")
            # the parts can be shared out among the results, each part once, so that they make them up
            fits = any(
                all(set(r.shots) == set().union(*[shots[i] for i in range(len(recs)) if home[i] == k]) and any(h == k for h in home) for k, r in enumerate(out))
                for home in itertools.product(range(len(out)), repeat=len(recs))
            )
            chk.expect(fits, "a merged reconstruction repeats or loses parts", parts=[sorted(v) for v in shots], out=[sorted(v.shots) for v in out])
        else:
            want = sorted(s for q in set(cluster) for s in set().union(*[shots[i] for i in range(len(recs)) if cluster[i] == q]))
            chk.expect(len(out) == len(set(cluster)), "merging left a different number of reconstructions", got=len(out), expected=len(set(cluster)))
            chk.expect(total == want, "merging lost or repeated shots", got=total, expected=want)


# ----------------------------------------------------------- joint alignment
def joint(chk, rng):
    """The native alignment of several reconstructions."""
    from opensfm import pybundle

    def vec(R):
        return gen.log_rotation(R)

    for n in range(chk.n(96, 960)):
        parts = int(rng.integers(1, 4))
        kind = str(rng.choice(["soft", "hard", "cameras", "points"]))
        shots = {"s%d" % k: (gen.rand_rotation(rng), rng.normal(size=3) * 5) for k in range(int(rng.integers(5, 10)))}
        names = list(shots)
        # reconstruction x = f(world)
        F = {"r%d" % j: (float(np.exp(rng.normal() * 0.1)), gen.rodrigues(rng.normal(size=3) * 0.3), rng.normal(size=3)) for j in range(parts)}
        members = {r: [s for s in names if rng.random() < 0.7 or j == 0] for j, r in enumerate(F)}
        if any(len(m) < 4 for m in members.values()):
            continue
        ra = pybundle.ReconstructionAlignment()
        first = "r0"
        for r in F:
            fixed = kind in ("cameras", "points") and r == first
            f = F[r]
            v = vec(f[1]) if fixed else np.zeros(3)
            t = f[2] if fixed else np.zeros(3)
            ra.add_reconstruction(r, *v, *t, f[0] if fixed else 1.0, fixed)
        added = set()
        pose = {}
        for r in F:
            for s in members[r]:
                R, o = shots[s]  # camera to world, position
                Rr, tr = (F[r][1] @ R).T, None
                tr = -Rr @ at(F[r], o)
                pose[r, s] = (Rr, tr)
                v = vec(Rr)
                if kind == "soft":
                    if s not in added:
                        w = vec(R.T @ gen.rodrigues(rng.normal(size=3) * 0.05))
                        ra.add_shot(s, *w, *(-R.T @ (o + rng.normal(size=3) * 0.1)), False)
                        ra.add_absolute_position_constraint(s, *o, 1.0)
                        added.add(s)
                    m = pybundle.RARelativeMotionConstraint(r, s, *v, *tr)
                    for a in range(6):
                        for b in range(6):
                            m.set_scale_matrix(a, b, float(a == b) * 10)
                    ra.add_relative_motion_constraint(m)
                else:
                    ra.add_shot(r + s, *v, *tr, True)
                    if kind == "hard":
                        ra.add_relative_absolute_position_constraint(r, r + s, *o, 1.0)
        rs = list(F)
        if kind in ("cameras", "points"):
            ok = True
            for j in range(1, parts):
                common = [s for s in members[rs[j]] if s in members[first]]
                ok &= len(common) >= 4
                if kind == "cameras":
                    for s in common:
                        ra.add_common_camera_constraint(first, first + s, rs[j], rs[j] + s, 1.0, 0.1)
                else:
                    for _ in range(12):
                        x = rng.normal(size=3) * 3
                        ra.add_common_point_constraint(first, *at(F[first], x), rs[j], *at(F[rs[j]], x), 0.1)
            if not ok:
                continue
        chk.case("joint alignment", {"kind": kind, "reconstructions": parts}, sig=(chk.shard, n))
        ok, _ = chk.guard(ra.run, "running a joint alignment")
        if not ok:
            continue
        chk.count("joint alignments")
        if "NO_CONVERGENCE" in ra.brief_report():
            # slow; judged when it is finished
            chk.count("joint alignments not finished")
            continue
        for r in F:
            g = ra.get_reconstruction(r)
            R = gen.rodrigues(np.array([g.rx, g.ry, g.rz]))
            gap = max(abs(g.scale - F[r][0]), np.abs(R - F[r][1]).max(), np.abs(np.array([g.tx, g.ty, g.tz]) - F[r][2]).max())
            chk.extreme("joint alignment: " + kind, gap)
            chk.expect(gap <= 1e-3, "joint alignment: the transform of a reconstruction is not recovered", of=kind, gap=gap, report=ra.brief_report())
            if kind in ("cameras", "points") and r == first:
                chk.expect(gap <= 1e-12, "joint alignment: a fixed reconstruction moved", gap=gap)
        if kind == "soft":
            for s in added:
                g = ra.get_shot(s)
                R = gen.rodrigues(np.array([g.rx, g.ry, g.rz]))
                o = -R.T @ np.array([g.tx, g.ty, g.tz])
                chk.expect(np.abs(R - shots[s][0].T).max() <= 1e-3 and np.abs(o - shots[s][1]).max() <= 1e-3, "joint alignment: a shot is not recovered", shot=s, report=ra.brief_report())


def run(chk):
    rng = chk.rng_for("alignment")
    applied(chk, rng)
    exact(chk, rng)
    flat(chk, rng)
    noisy(chk, rng)
    few(chk, rng)
    lines(chk, rng)
    biases(chk, rng)
    methods(chk, rng)
    robust(chk, rng)
    overlaps(chk, rng)
    merges(chk, rng)
    scattered(chk, chk.rng_for("scattered merges"))
    joint(chk, rng)
