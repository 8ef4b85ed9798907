"""C18: bundle adjustment minimizes the problem it states."""
import re

import numpy as np

import bundle_ref as br
import gen
import scenes
from checks import c17

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["initial costs recomputed", "final costs recomputed", "constant blocks compared", "reprojection errors compared", "minima probed", "exact problems recovered",
            "priors honoured", "global adjustments", "local adjustments", "pose adjustments", "alignment methods detected", "covariances"]
RULE = ("one case = one adjustment problem (camera models, rigs, priors and constraints drawn at random) run through the library; costs before and after, every "
        "parameter, and stored errors are recomputed from the statement of the problem; non-trivial = the optimizer made at least one step")
ASSUMPTIONS = ["costs are printed with six digits", "a minimum is accepted when an independent optimizer started there gains less than 1 % of the cost (95 % of the problems; never more than half of it)",
               "distortion coefficients without a configured deviation (k5, k6, s0-s3) are held at their prior by the library"]
LOSSES = ["TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss"]
SOLVERS = ["DENSE_SCHUR", "SPARSE_SCHUR", "DENSE_QR", "SPARSE_NORMAL_CHOLESKY"]


def lib_pose(R, o):
    """Library pose of rotation local to global and origin."""
    from opensfm import pygeometry

    p = pygeometry.Pose()
    p.set_rotation_matrix(R.T)
    p.translation = -R.T @ o
    return p


def pose_pair(p):
    return p.get_rotation_matrix().T, p.get_origin()


# ------------------------------------------------------------------ problems
def world(rng, models=None, rigs=None, insts=None, points=None, strength=0.4, spread=None):
    """A random arrangement: problem, true state."""
    pr, st, sc = br.Problem(), br.State(), scenes.Scene()
    models = models or [str(rng.choice(gen.MODELS)) for _ in range(rng.integers(1, 3))]
    for k, m in enumerate(models):
        p = scenes.camera(rng, m, strength)
        if m == "dual":
            p["transition"] = float(rng.uniform(0.2, 0.8))
        pr.models["c%d" % k] = m
        st.cams["c%d" % k] = p
        pr.cam_prior["c%d" % k] = p
        sc.cams["c%d" % k] = p
    rigs = rigs or int(rng.integers(1, 4))
    for k in range(rigs):
        if k == 0 and rng.random() < 0.5:
            st.rigs["r0"] = (np.eye(3), np.zeros(3))
        else:
            st.rigs["r%d" % k] = (gen.rodrigues(rng.normal(size=3) * 0.1), rng.normal(size=3) * 0.3)
        pr.rig_prior["r%d" % k] = st.rigs["r%d" % k]
    insts = insts or int(rng.integers(2, 6))
    for i in range(insts):
        if spread == "arc":
            a = -0.8 + 1.6 * i / max(1, insts - 1)
            o = np.array([6 * np.sin(a), -6 * np.cos(a), rng.uniform(0, 2.5)])
        else:
            d = rng.normal(size=3)
            d[2] = abs(d[2]) * 0.5
            o = d / np.linalg.norm(d) * rng.uniform(5, 7)
        R = gen.look_at(o, rng.normal(size=3) * 0.3)
        R = R.T if np.linalg.norm(R @ -o / np.linalg.norm(o) - [0, 0, 1]) < 0.5 else R
        R = R @ gen.rodrigues(np.array([0, 0, rng.normal() * 0.3]))
        st.insts["i%d" % i] = (R, o)
        for k in range(rigs):
            if k == 0 or rng.random() < 0.8:
                s = "s%d_%d" % (i, k)
                pr.shots[s] = ("i%d" % i, "c%d" % (k % len(models)), "r%d" % k)
    for s in pr.shots:
        R, o = pr.shot_pose(st, s)
        sc.shots[s] = {"cam": pr.shots[s][1], "R": R.T, "t": -R.T @ o}
    n = points or int(rng.integers(15, 40))
    sc.X = rng.uniform(-1.5, 1.5, (n, 3))
    for k in range(n):
        st.points["p%d" % k] = sc.X[k]
    for s in pr.shots:
        xy, ok = sc.project(s, sc.X)
        for k in np.nonzero(ok)[0]:
            pr.obs.append((s, "p%d" % k, xy[k], 0.004, None))
    for i in st.insts:
        st.scales[i] = 1.0
    for c in st.cams:
        st.biases[c] = (np.eye(3), np.zeros(3), 1.0)
    return pr, st


def nudge_camera(rng, p, a):
    q = dict(p)
    if p["model"] == "spherical":
        return q
    q["focal"] = p["focal"] * (1 + a * rng.uniform(-1, 1))
    for k in ("aspect_ratio",):
        if k in p:
            q[k] = p[k] * (1 + 0.5 * a * rng.uniform(-1, 1))
    for k in ("cx", "cy"):
        if k in p:
            q[k] = p[k] + 0.5 * a * rng.uniform(-1, 1)
    if "transition" in p:
        q["transition"] = float(np.clip(p["transition"] + 2 * a * rng.uniform(-1, 1), 0.1, 0.9))
    q["distortion"] = [d + (0.3 * a * rng.uniform(-1, 1) if n in br.SD_ORDER else 0.0) for n, d in zip(gen.DNAMES[p["model"]], p["distortion"])]
    return q


def nudge(rng, st, a, fixed=()):
    """A start near a state; what is fixed stays."""
    s = st.copy()
    for c in s.cams:
        if ("cam", c) not in fixed:
            s.cams[c] = nudge_camera(rng, s.cams[c], a)
    for kind, d, size in (("rig", s.rigs, 0.3), ("inst", s.insts, 3.0)):
        for k in d:
            if (kind, k) not in fixed:
                R, o = d[k]
                d[k] = (R @ gen.rodrigues(rng.normal(size=3) * a), o + rng.normal(size=3) * a * size)
    for k in s.points:
        if ("point", k) not in fixed:
            s.points[k] = s.points[k] + rng.normal(size=3) * a
    return s


def load(pr, st, fixed, opts):
    """The library's problem."""
    from opensfm import pybundle, pymap

    ba = pybundle.BundleAdjuster()
    for c, p in st.cams.items():
        ba.add_camera(c, gen.make_camera(p, c), gen.make_camera(pr.cam_prior[c], c), ("cam", c) in fixed)
    sd = pr.cam_sd
    early = opts.get("early_sd", False)

    def set_sd():
        ba.set_internal_parameters_prior_sd(sd["focal"], sd["aspect_ratio"], sd["c"], sd["k1"], sd["k2"], sd["p1"], sd["p2"], sd["k3"], sd["k4"])

    if early:
        set_sd()
    for r, (R, o) in st.rigs.items():
        ba.add_rig_camera(r, lib_pose(R, o), lib_pose(*pr.rig_prior[r]), ("rig", r) in fixed)
    for i, (R, o) in st.insts.items():
        ss = [s for s in pr.shots if pr.shots[s][0] == i]
        ba.add_rig_instance(i, lib_pose(R, o), {s: pr.shots[s][1] for s in ss}, {s: pr.shots[s][2] for s in ss}, ("inst", i) in fixed)
    for i, (x, s, cam) in pr.inst_prior.items():
        ba.add_rig_instance_position_prior(i, x, s, opts.get("group", {}).get(i, "g"))
    for c, b in opts.get("bias", {}).items():
        ba.set_camera_bias(c, b)
    for k, x in st.points.items():
        ba.add_point(k, x, ("point", k) in fixed)
    for k, (x, s, alt) in pr.point_prior.items():
        ba.add_point_prior(k, x, s, alt)
    for s, p, xy, sd_, d in pr.obs:
        if d is None:
            ba.add_point_projection_observation(s, p, xy, sd_)
        else:
            ba.add_point_projection_observation(s, p, xy, sd_, pymap.Depth(value=d[0], is_radial=d[1], std_deviation=d[2]))
    for name, (constant, shared, members) in opts.get("recs", {}).items():
        ba.add_reconstruction(name, constant)
        for i in members:
            ba.add_reconstruction_instance(name, st.scales[i], i)
        ba.set_scale_sharing(name, shared)
    for i, j, r, t, s, m, o, M in pr.motions:
        rm = pybundle.RelativeMotion(i, j, r, t, s, m, o)
        rm.set_scale_matrix(M)
        ba.add_relative_motion(rm)
    for a, b, r, M in pr.rotations:
        rr = pybundle.RelativeRotation(a, b, r)
        rr.set_scale_matrix(M)
        ba.add_relative_rotation(rr)
    for a, b, m, s in pr.common:
        ba.add_common_position(a, b, m, s)
    for k, (s, grid, res, xo, yo, sd_) in enumerate(pr.heatmaps):
        ba.add_heatmap("h%d" % k, list(grid.ravel()), grid.shape[1], res)
        ba.add_absolute_position_heatmap(s, "h%d" % k, xo, yo, sd_)
    for s, v, d in pr.ups:
        ba.add_absolute_up_vector(s, v, d)
    for s, a, d in pr.pans:
        ba.add_absolute_pan(s, a, d)
    for s, a, d in pr.tilts:
        ba.add_absolute_tilt(s, a, d)
    for s, a, d in pr.rolls:
        ba.add_absolute_roll(s, a, d)
    for l in pr.linear:
        ba.add_linear_motion(*l)
    if opts.get("gauge"):
        ba.set_gauge_fix_shots(*opts["gauge"])
    ba.set_point_projection_loss_function(*pr.loss)
    ba.set_relative_motion_loss_function(*pr.motion_loss)
    if not early:
        set_sd()
    ba.set_adjust_absolute_position_std(bool(pr.groups))
    ba.set_max_num_iterations(opts.get("iterations", 60))
    ba.set_num_threads(opts.get("threads", 1))
    ba.set_use_analytic_derivatives(opts.get("analytic", False))
    ba.set_linear_solver_type(opts.get("solver", "DENSE_SCHUR"))
    ba.set_compute_covariances(opts.get("covariance", False))
    ba.set_compute_reprojection_errors(opts.get("errors", True))
    return ba


def read(ba, pr, st, opts=None):
    out = st.copy()
    for c in st.cams:
        out.cams[c] = br.params_of(pr.models[c], ba.get_camera(c))
    for r in st.rigs:
        out.rigs[r] = pose_pair(ba.get_rig_camera_pose(r))
    for i in st.insts:
        out.insts[i] = pose_pair(ba.get_rig_instance_pose(i))
    for k in st.points:
        out.points[k] = np.array(ba.get_point(k).p)
    for name, (constant, shared, members) in (opts or {}).get("recs", {}).items():
        for i in members:
            out.scales[i] = ba.get_reconstruction(name).get_scale(i)
    return out


def costs(report):
    m = re.search(r"Iterations: (-?\d+), Initial cost: (\S+), Final cost: (\S+), Termination: (\w+)", report)
    return int(m[1]), float(m[2]), float(m[3].rstrip(",")), m[4]


def flat(p):
    return np.array([p.get(k, 0.0) for k in ("focal", "aspect_ratio", "cx", "cy", "transition")] + list(p.get("distortion", [])))


def gap(a, b, kind):
    if kind == "cam":
        return float(np.abs(flat(a) - flat(b)).max())
    if kind == "point":
        return float(np.abs(a - b).max())
    return float(max(np.abs(a[0] - b[0]).max(), np.abs(a[1] - b[1]).max()))


def compare_fixed(chk, pr, before, after, fixed, what):
    for kind, d in (("cam", "cams"), ("rig", "rigs"), ("inst", "insts"), ("point", "points")):
        for k in getattr(before, d):
            if (kind, k) in fixed:
                g = gap(getattr(before, d)[k], getattr(after, d)[k], kind)
                chk.count("constant blocks compared")
                chk.extreme("constant block moved", g)
                chk.expect(g <= 1e-9, what + ": something declared constant was changed", kind=kind, id=k, moved=g)


def judge_costs(chk, pr, before, after, report, what, sigmas=None, **data):
    n, c0, c1, term = costs(report)
    r0 = pr.cost(before)
    chk.count("initial costs recomputed")
    ok = np.isfinite(r0)
    if ok:
        chk.close(c0, r0, 2e-6, what + ": initial cost is not that of the stated problem", rel=True, **data)
        chk.extreme("initial cost", abs(c0 - r0) / max(abs(r0), 1e-6))
    chk.expect(c1 <= c0 * (1 + 1e-6) + 1e-12, what + ": the cost increased", initial=c0, final=c1, **data)
    if after is not None:
        r1 = pr.cost(after)
        chk.count("final costs recomputed")
        chk.close(c1, r1, 1e-5, what + ": results are not those of the final cost", rel=True, **data)
        chk.extreme("final cost", abs(c1 - r1) / max(abs(r1), 1e-6))
    return n, c0, c1, term


def judge_errors(chk, pr, after, get, what):
    """Stored reprojection errors are the true ones."""
    want = {}
    for (s, p, xy, sd, d), e in zip(pr.obs, pr.projections(after, unit=True)):
        want.setdefault(p, {})[s] = e
    for p in after.points:
        got = get(p)
        w = want.get(p, {})
        chk.expect(sorted(got) == sorted(w), what + ": errors are stored for other shots", point=p, got=sorted(got), want=sorted(w))
        for s in set(got) & set(w):
            g = float((np.abs(np.asarray(got[s]).ravel() - w[s]) / (1 + np.abs(w[s]))).max()) if np.size(got[s]) == len(w[s]) else np.inf
            chk.count("reprojection errors compared")
            chk.extreme("stored reprojection error", g)
            chk.expect(g <= 1e-6, what + ": stored reprojection error is wrong", point=p, shot=s, got=got[s], want=w[s])


def probe(chk, rate, pr, st, fixed, cost, what, **data):
    """An independent optimizer does not improve on the result."""
    from scipy.optimize import least_squares

    keys = []
    for kind, d in (("cam", st.cams), ("rig", st.rigs), ("inst", st.insts), ("point", st.points)):
        keys += [(kind, k) for k in d if (kind, k) not in fixed]

    names = {}
    for kind, k in keys:
        if kind == "cam":
            p = st.cams[k]
            names[k] = [n for n in ("focal", "aspect_ratio", "cx", "cy", "transition") if n in p]
            names[k] += [j for j, n in enumerate(gen.DNAMES[p["model"]]) if n in br.SD_ORDER]

    def size(kind, k):
        return {"cam": len(names.get(k, [])), "rig": 6, "inst": 6, "point": 3}[kind]

    total = sum(size(*k) for k in keys)

    def apply(x):
        s = st.copy()
        at = 0
        for kind, k in keys:
            n = size(kind, k)
            v = x[at:at + n]
            at += n
            if kind == "cam":
                p = dict(st.cams[k])
                p["distortion"] = list(p.get("distortion", []))
                for name, dv in zip(names[k], v):
                    if isinstance(name, int):
                        p["distortion"][name] += dv
                    else:
                        p[name] += dv
                s.cams[k] = p
            elif kind == "point":
                s.points[k] = st.points[k] + v
            else:
                d = s.rigs if kind == "rig" else s.insts
                R, o = d[k]
                d[k] = (gen.rodrigues(v[:3]) @ R, o + v[3:])
        return s

    if not total or total > 200:
        return
    f0 = pr.vector(st)
    # numeric derivatives and two damped steps
    h = 1e-6
    J = np.stack([(pr.vector(apply(h * e)) - pr.vector(apply(-h * e))) / (2 * h) for e in np.eye(total)], 1)
    if not np.all(np.isfinite(J)):
        return
    best = 0.5 * f0 @ f0
    g = J.T @ f0
    H = J.T @ J
    for lam in (1e-8, 1e-6, 1e-4, 1e-2, 1):
        try:
            dx = -np.linalg.solve(H + lam * np.diag(np.maximum(np.diag(H), 1e-9)), g)
        except np.linalg.LinAlgError:
            continue
        with np.errstate(all="ignore"):
            f = pr.vector(apply(dx))
        if np.all(np.isfinite(f)):
            best = min(best, 0.5 * f @ f)
    chk.count("minima probed")
    gain = (cost - best) / max(cost, 1e-9)
    chk.extreme("gain of an independent step", gain)
    rate.add("a converged result is a minimum", gain <= 0.01 or cost - best < 1e-9, 0.95)
    chk.expect(gain <= 0.5 or cost - best < 1e-9, what + ": the result is not a minimum", cost=cost, improved=best, **data)


def fix_some(rng, st):
    fixed = set()
    for kind, d, p in (("cam", st.cams, 0.4), ("rig", st.rigs, 0.4), ("inst", st.insts, 0.25), ("point", st.points, 0.1)):
        for k in d:
            if rng.random() < p:
                fixed.add((kind, k))
    return fixed


def decorate(rng, pr, st, opts, fixed):
    """Priors and constraints, not all satisfied exactly."""
    insts, shots, pts = list(st.insts), list(pr.shots), list(st.points)
    kinds = set(str(k) for k in rng.choice(["position", "point", "depth", "motion", "rotation", "common", "heatmap", "up", "pan", "tilt", "roll", "linear", "gauge"],
                                           int(rng.integers(0, 6)), replace=False))
    cams_of = {i: [pr.shots[s][1] for s in pr.shots if pr.shots[s][0] == i] for i in insts}
    inst = {s: pr.shots[s][0] for s in shots}
    if "position" in kinds:
        for i in insts:
            if rng.random() < 0.8:
                pr.inst_prior[i] = (st.insts[i][1] + rng.normal(size=3) * 0.2, rng.uniform(0.1, 2, 3), cams_of[i][0])
                opts.setdefault("group", {})[i] = str(rng.choice(["g", "h"]))
    if "point" in kinds:
        for k in pts[:6]:
            pr.point_prior[k] = (st.points[k] + rng.normal(size=3) * 0.1, rng.uniform(0.05, 1, 3), bool(rng.integers(2)))
    if "depth" in kinds:
        for n in range(0, len(pr.obs), 3):
            s, p, xy, sd, _ = pr.obs[n]
            R, o = pr.shot_pose(st, s)
            Y = (st.points[p] - o) @ R
            rad = bool(rng.integers(2))
            pr.obs[n] = (s, p, xy, sd, ((np.linalg.norm(Y) if rad else Y[2]) * rng.uniform(0.9, 1.1), rad, float(rng.uniform(0.05, 1))))
    if "motion" in kinds and len(insts) > 2:
        half = len(insts) // 2 + 1
        opts["recs"] = {"A": (bool(rng.integers(2)), bool(rng.integers(2)), insts[:half]), "B": (False, True, insts[half:])}
        for i in insts:
            st.scales[i] = float(rng.uniform(0.7, 1.4))
        for name, (c, shared, members) in opts["recs"].items():
            if shared:
                for i in members:
                    st.scales[i] = st.scales[sorted(members)[0]] if members else 1.0
        for a in range(len(insts) - 1):
            i, j = insts[a], insts[a + 1]
            (Ri, oi), (Rj, oj) = st.insts[i], st.insts[j]
            r = gen.log_rotation(Rj.T @ Ri @ gen.rodrigues(rng.normal(size=3) * 0.1))
            t = st.scales[j] * Rj.T @ (oi - oj) + rng.normal(size=3) * 0.2
            M = np.diag(rng.uniform(0.5, 3, 7)) + 0.1 * rng.normal(size=(7, 7))
            pr.motions.append((i, j, r, t, float(rng.uniform(0.7, 1.4)), float(rng.uniform(0.5, 2)), bool(rng.integers(2)), M))
    pairs = [(a, b) for a in shots for b in shots if inst[a] != inst[b]]
    if "rotation" in kinds:
        for k in rng.choice(len(pairs), min(3, len(pairs)), replace=False):
            a, b = pairs[k]
            Ra, Rb = pr.shot_pose(st, a)[0], pr.shot_pose(st, b)[0]
            pr.rotations.append((a, b, gen.log_rotation(Rb.T @ Ra @ gen.rodrigues(rng.normal(size=3) * 0.1)), np.diag(rng.uniform(0.5, 3, 3)) + 0.1 * rng.normal(size=(3, 3))))
    if "common" in kinds:
        for k in rng.choice(len(pairs), min(3, len(pairs)), replace=False):
            pr.common.append((*pairs[k], float(rng.uniform(0, 1)), float(rng.choice([1.0, 20.0]))))
    if "heatmap" in kinds:
        for s in shots[:2]:
            g = rng.uniform(0, 1, (int(rng.integers(5, 12)), int(rng.integers(5, 12))))
            pr.heatmaps.append((s, g, float(rng.uniform(1, 3)), *(float(v) for v in rng.normal(size=2)), float(rng.uniform(0.5, 2))))
    for kind in ("up", "pan", "tilt", "roll"):
        if kind in kinds:
            for s in shots:
                if rng.random() < 0.5:
                    R = pr.shot_pose(st, s)[0]
                    sd = float(rng.choice([0.01, 0.1, 1.0, 0.0, -1.0], p=[0.3, 0.3, 0.2, 0.1, 0.1]))
                    if kind == "up":
                        pr.ups.append((s, (R.T @ [0, 0, 1] + rng.normal(size=3) * 0.1) * rng.uniform(0.2, 12), sd))
                    elif kind == "pan":
                        pr.pans.append((s, float(np.arctan2(R[0, 2], R[1, 2]) + rng.normal() * 0.1), sd))
                    elif kind == "tilt":
                        pr.tilts.append((s, float(-np.arcsin(R[2, 2]) + rng.normal() * 0.1), sd))
                    else:
                        z, x = R[:, 2], R[:, 0]
                        right = np.array([z[1], -z[0], 0]) / np.hypot(z[0], z[1])
                        v = z @ np.cross(x, right)
                        if v > -0.9:
                            pr.rolls.append((s, float(np.arcsin(np.clip(v, -1, 1)) + rng.normal() * 0.1), sd))
    if "linear" in kinds and len(insts) > 2:
        for n in range(3):
            tr = [str(rng.choice([s for s in shots if inst[s] == i])) for i in (str(v) for v in rng.choice(insts, 3, replace=False))]
            pr.linear.append((*tr, float(rng.uniform(0.2, 0.8)), float(rng.uniform(0.1, 1)), float(rng.uniform(0.1, 1))))
    if "gauge" in kinds:
        a, b = pairs[int(rng.integers(len(pairs)))]
        opts["gauge"] = (a, b)
        fixed.add(("inst", inst[a]))
    return kinds


def problems(chk, rng):
    rate = c17.Rate()
    for n in range(chk.n(480, 4000)):
        small = n % 3 != 2
        pr, truth = world(rng, points=int(rng.integers(4, 8)) if small else None, insts=int(rng.integers(2, 4)) if small else None)
        if not pr.obs:
            continue
        opts = {"analytic": bool(rng.integers(2)), "threads": int(rng.choice([1, 1, 3])), "solver": str(rng.choice(SOLVERS)), "iterations": int(rng.choice([0, 1, 20, 80] if not small else [1, 20, 150, 150])),
                "early_sd": bool(rng.integers(2)), "errors": bool(rng.random() < 0.9), "covariance": bool(rng.random() < 0.15)}
        pr.loss = (str(rng.choice(LOSSES)), float(rng.choice([0.5, 1.0, 2.5])))
        pr.motion_loss = (str(rng.choice(LOSSES)), float(rng.choice([0.5, 1.0, 2.5])))
        pr.cam_sd = {k: float(rng.choice([0.01, 0.1, 1.0])) for k in br.SD_ORDER}
        noise = float(rng.choice([0.0, 0.002, 0.02]))
        pr.obs = [(s, p, xy + rng.normal(size=2) * noise, float(rng.choice([0.002, 0.004, 0.01])), d) for s, p, xy, _, d in pr.obs]
        fixed = fix_some(rng, truth)
        pr.cam_prior = {c: nudge_camera(rng, p, 0.02) for c, p in truth.cams.items()}
        pr.rig_prior = {r: (R @ gen.rodrigues(rng.normal(size=3) * 0.05), o + rng.normal(size=3) * 0.05) for r, (R, o) in truth.rigs.items()}
        kinds = decorate(rng, pr, truth, opts, fixed)
        start = nudge(rng, truth, float(rng.choice([0.0, 0.01, 0.03])))
        # an identity rig camera that is fixed is a special case of its own
        for c in start.cams:
            start.cams[c] = {**start.cams[c], "distortion": [v if k in br.SD_ORDER else w for k, v, w in
                                                             zip(gen.DNAMES[pr.models[c]], start.cams[c].get("distortion", []), pr.cam_prior[c].get("distortion", []))]}
        if rng.random() < 0.5 and "r0" in start.rigs:
            start.rigs["r0"] = (np.eye(3), np.zeros(3))
        if opts.get("gauge"):
            a, b = (pr.shots[s][0] for s in opts["gauge"])
            pr.gauge = (a, b, float(np.linalg.norm(start.insts[a][1] - start.insts[b][1])))
        if pr.inst_prior and rng.random() < 0.3:
            pr.groups = len(set(opts["group"][i] for i in pr.inst_prior))
            if pr.groups != 1:
                pr.groups = 0
        data = dict(kinds=sorted(kinds), models=pr.models, loss=pr.loss, opts={k: str(v) for k, v in opts.items()}, groups=pr.groups)
        ok, ba = chk.guard(lambda: load(pr, start, fixed, opts), "building a problem")
        if not ok:
            continue
        ok, _ = chk.guard(ba.run, "running an adjustment")
        if not ok:
            continue
        # reading back is where the start is exact again
        after = read(ba, pr, start, opts)
        chk.case("problem", "+".join(sorted(kinds)) or "plain", sig=(chk.shard, n))
        if pr.groups:
            # the adjusted deviation is not returned: the best one explains the cost
            from scipy.optimize import minimize_scalar

            _, c0, c1, _ = judge_costs(chk, pr, start, None, ba.brief_report(), "adjusted deviations", **data)
            best = minimize_scalar(lambda l: pr.cost(after, np.exp(l)), bounds=(-12, 12), method="bounded")
            chk.expect(c1 >= best.fun * (1 - 1e-5) - 1e-9, "adjusted deviations: the final cost is below what the results allow", final=c1, best=best.fun, **data)
        else:
            its, c0, c1, term = judge_costs(chk, pr, start, after, ba.brief_report(), "problem", **data)
            chk.expect(its <= opts["iterations"] + 1, "more iterations than allowed", got=its, allowed=opts["iterations"])
            if small and term == "CONVERGENCE" and opts["iterations"] >= 20 and not pr.motions and not pr.heatmaps and not pr.common and noise:
                probe(chk, rate, pr, after, fixed, c1, "problem", **data)
        compare_fixed(chk, pr, start, after, fixed, "problem")
        if opts["errors"]:
            judge_errors(chk, pr, after, lambda p: ba.get_point(p).reprojection_errors, "problem")
        else:
            chk.expect(all(not ba.get_point(p).reprojection_errors for p in after.points), "errors stored although not asked for")
        if opts["covariance"]:
            chk.count("covariances")
            chk.expect(isinstance(ba.get_covariance_estimation_valid(), bool), "covariance validity is not a flag")
        for c, p in after.cams.items():
            if p["model"] == "dual" and ("cam", c) not in fixed:
                chk.expect(0 <= p["transition"] <= 1, "transition of a dual camera left its range", got=p["transition"])
    rate.judge(chk)


# ------------------------------------------------------------------ recovery
def recovery(chk, rng):
    for n in range(chk.n(160, 1200)):
        model = gen.MODELS[(n * chk.shards + chk.shard) % len(gen.MODELS)]
        other = [str(rng.choice(gen.MODELS))] if rng.random() < 0.3 else []
        pr, truth = world(rng, models=[model] + other, insts=int(rng.integers(4, 7)), points=70, strength=0.3, spread="arc")
        pr.loss = (str(rng.choice(LOSSES)), 1.0)
        seen = {}
        for s, p, *_ in pr.obs:
            seen.setdefault(p, set()).add(s)
        good = {p for p in seen if len({pr.shots[s][0] for s in seen[p]}) >= 3}
        truth.points = {p: x for p, x in truth.points.items() if p in good}
        pr.obs = [o for o in pr.obs if o[1] in good]
        per = {s: sum(o[0] == s for o in pr.obs) for s in pr.shots}
        if min(per.values()) < 12 or len(good) < 20:
            chk.count("skipped: few observations")
            continue
        fixed = set()
        mode = str(rng.choice(["two", "gps", "points"]))
        if mode == "two":
            fixed |= {("inst", "i0"), ("inst", "i%d" % (len(truth.insts) - 1))}
        elif mode == "points":
            fixed |= {("point", p) for p in list(truth.points)[:8]}
        else:
            for i in truth.insts:
                pr.inst_prior[i] = (truth.insts[i][1], np.full(3, 0.5), [pr.shots[s][1] for s in pr.shots if pr.shots[s][0] == i][0])
        if rng.random() < 0.3:
            fixed |= {("cam", c) for c in truth.cams}
        if rng.random() < 0.3 or len(truth.rigs) == 1:
            fixed |= {("rig", r) for r in truth.rigs}
        start = nudge(rng, truth, 0.02, fixed)
        opts = {"analytic": bool(rng.integers(2)), "iterations": 300, "solver": str(rng.choice(SOLVERS[:2])), "threads": int(rng.choice([1, 2]))}
        ba = load(pr, start, fixed, opts)
        ba.run()
        after = read(ba, pr, start)
        judge_costs(chk, pr, start, after, ba.brief_report(), "exact problem", model=model)
        compare_fixed(chk, pr, start, after, fixed, "exact problem")
        c1 = costs(ba.brief_report())[2]
        gp = max(float(np.linalg.norm(after.points[p] - truth.points[p])) for p in truth.points)
        gi = max(gap(after.insts[i], truth.insts[i], "inst") for i in truth.insts)
        gc = max(gap(after.cams[c], truth.cams[c], "cam") for c in truth.cams)
        gr = max(gap(after.rigs[r], truth.rigs[r], "rig") for r in truth.rigs)
        # the barrier of a dual camera keeps it off its prior: judged by the points
        dual = "dual" in pr.models.values() and not all(("cam", c) in fixed for c in truth.cams)
        chk.case("exact problem", "%s %s" % (model, mode), sig=(chk.shard, n))
        chk.count("exact problems recovered")
        for k, g in (("points", gp), ("instances", gi), ("cameras", gc), ("rigs", gr)):
            chk.extreme("recovered %s%s" % (k, " (dual)" if dual else ""), g)
            if dual and k in ("cameras", "rigs"):
                continue
            chk.expect(g <= (0.2 if dual else 1e-3), "exact problem: the true geometry is not recovered", of=k, gap=g, cost=c1, models=pr.models, mode=mode,
                       opts=opts, loss=pr.loss, fixed=len(fixed), report=ba.brief_report())


# --------------------------------------------------------- single constraints
def single(chk, rng):
    """One constraint alone is satisfied by the result."""
    rate = c17.Rate()
    kinds = ["position", "point", "flat point", "depth", "rotation", "motion", "common", "heatmap", "up", "pan", "tilt", "roll", "linear", "camera", "rig", "gauge"]
    for n in range(chk.n(320, 2400)):
        kind = kinds[(n * chk.shards + chk.shard) % len(kinds)]
        pr, truth = world(rng, insts=3, points=5)
        obs, pr.obs = pr.obs, []
        pr.motion_loss = ("TrivialLoss", 1.0)
        pr.loss = ("TrivialLoss", 1.0)
        shots = list(pr.shots)
        inst = {s: pr.shots[s][0] for s in shots}
        a, b, c = (next(s for s in shots if inst[s] == i) for i in ("i0", "i1", "i2"))
        fixed = {("rig", r) for r in truth.rigs} if kind != "rig" else set()
        fixed |= {("cam", k) for k in truth.cams} if kind != "camera" else set()
        st = truth.copy()
        opts = {"iterations": 200}
        R = pr.shot_pose(truth, a)[0]
        if kind == "position":
            pr.inst_prior["i0"] = (truth.insts["i0"][1] + rng.normal(size=3), rng.uniform(0.1, 3, 3), pr.shots[a][1])
        elif kind in ("point", "flat point"):
            pr.point_prior["p0"] = (truth.points["p0"] + rng.normal(size=3), rng.uniform(0.1, 3, 3), kind == "point")
        elif kind == "depth":
            s, p, xy, sd, _ = obs[0] if obs else (a, "p0", np.zeros(2), 0.01, None)
            pr.obs = [(s, p, xy, sd, (float(rng.uniform(3, 6)), bool(rng.integers(2)), 0.01))]
            fixed |= {("inst", i) for i in truth.insts}
        elif kind == "rotation":
            pr.rotations.append((a, b, rng.normal(size=3) * 0.5, np.eye(3)))
            fixed.add(("inst", "i0"))
        elif kind == "motion":
            opts["recs"] = {"A": (False, bool(rng.integers(2)), ["i0", "i1"])}
            st.scales = {i: 1.0 for i in st.scales}
            pr.motions.append(("i0", "i1", rng.normal(size=3) * 0.5, rng.normal(size=3), 1.0, 1.0, bool(rng.integers(2)), np.eye(7)))
            fixed.add(("inst", "i0"))
        elif kind == "common":
            o = st.insts["i0"]
            st.insts["i1"] = (st.insts["i1"][0], o[1] + rng.normal(size=3) * 0.2)
            pr.common.append((a, b, 0.05, 4.0))
        elif kind == "heatmap":
            g = np.add.outer((np.arange(15) - 7.0) ** 2, (np.arange(13) - 6.0) ** 2) * 0.1
            o = pr.shot_pose(st, a)[1]
            pr.heatmaps.append((a, g, 1.5, o[0] + rng.normal(), o[1] + rng.normal(), 1.0))
        elif kind == "up":
            pr.ups.append((a, R.T @ [0, 0, 1] + rng.normal(size=3) * 0.2, 0.1))
        elif kind == "pan":
            pr.pans.append((a, float(np.arctan2(R[0, 2], R[1, 2]) + rng.normal() * 0.3), 0.5))
        elif kind == "tilt":
            pr.tilts.append((a, float(np.clip(-np.arcsin(R[2, 2]) + rng.normal() * 0.2, -1.2, 1.2)), 0.5))
        elif kind == "roll":
            pr.rolls.append((a, float(rng.uniform(-0.8, 0.8)), 0.5))
        elif kind == "linear":
            pr.linear.append((a, b, c, float(rng.uniform(0.3, 0.7)), 0.1, 1.0))
            fixed |= {("inst", "i0"), ("inst", "i2")}
        elif kind == "camera":
            pr.cam_prior = {k: nudge_camera(rng, p, 0.1) for k, p in truth.cams.items()}
        elif kind == "rig":
            pr.rig_prior = {r: (R_ @ gen.rodrigues(rng.normal(size=3) * 0.3), o + rng.normal(size=3)) for r, (R_, o) in truth.rigs.items()}
        elif kind == "gauge":
            opts["gauge"] = (a, b)
            pr.gauge = ("i0", "i1", float(np.linalg.norm(st.insts["i0"][1] - st.insts["i1"][1])))
            fixed.add(("inst", "i0"))
            pr.inst_prior["i0"] = (truth.insts["i0"][1] + rng.normal(size=3), np.ones(3), pr.shots[a][1])
            pr.inst_prior["i2"] = (truth.insts["i2"][1] + rng.normal(size=3), np.ones(3), pr.shots[c][1])
        if kind in ("up", "pan", "tilt", "roll"):
            # barely holds the freedom that is left
            Ra, Rb = pr.shot_pose(truth, a)[0], pr.shot_pose(truth, b)[0]
            pr.rotations.append((a, b, gen.log_rotation(Rb.T @ Ra), 0.02 * np.eye(3)))
            fixed.add(("inst", inst[b]))
        ba = load(pr, st, fixed, opts)
        ba.run()
        after = read(ba, pr, st, opts)
        compare_fixed(chk, pr, st, after, fixed, "single constraint")
        judge_costs(chk, pr, st, after, ba.brief_report(), "single constraint", kind=kind)
        chk.case("constraint", kind, sig=(chk.shard, n))
        chk.count("priors honoured")
        f0 = sum(0.5 * float(e @ e) for k, e, _ in pr.terms(after) if k == "barrier")
        left = pr.cost(after) - f0
        if kind == "gauge":
            d = np.linalg.norm(after.insts["i0"][1] - after.insts["i1"][1])
            chk.close(d, pr.gauge[2], 1e-3, "gauge: the distance of the two shots is not kept", rel=True)
            left -= 0.5 * float(np.sum((truth.insts["i0"][1] - pr.inst_prior["i0"][0]) ** 2))
        elif kind == "flat point":
            chk.close(after.points["p0"][2], st.points["p0"][2], 1e-9, "prior without altitude changed the altitude")
        if kind == "camera" and "dual" in pr.models.values():
            continue
        if kind == "linear":
            continue  # cannot be satisfied by three positions and rotations at once in general
        start_cost = pr.cost(st) - f0
        chk.extreme("cost left: " + kind, left / max(start_cost, 1e-6))
        met = left <= 1e-5 + 0.01 * max(start_cost, 0)
        if kind in ("pan", "tilt", "roll", "heatmap"):
            # slow to converge without other observations
            met = left <= 1e-3 + 0.2 * max(start_cost, 0)
            rate.add("a single %s constraint is met" % kind, met, 0.6 if kind == "heatmap" else 0.8)
            met = left <= start_cost * (1 + 1e-6) + 1e-9
        chk.expect(met, "a single constraint is not met", kind=kind, left=left, before=start_cost, report=ba.brief_report())
    rate.judge(chk)


# ------------------------------------------------------------------ map level
def to_map(rng, pr, st, gps=None, acc=None):
    from opensfm import geo, pymap, types

    rec = types.Reconstruction()
    R = scenes.REF
    rec.reference = geo.TopocentricConverter(R["latitude"], R["longitude"], R["altitude"])
    for c, p in st.cams.items():
        rec.add_camera(gen.make_camera(p, c))
    for r, (Rr, o) in st.rigs.items():
        rec.add_rig_camera(pymap.RigCamera(lib_pose(Rr, o), r))
    for i, (Ri, o) in st.insts.items():
        x = rec.add_rig_instance(pymap.RigInstance(i))
    for s, (i, c, r) in pr.shots.items():
        shot = rec.create_shot(s, c, rig_camera_id=r, rig_instance_id=i)
        if gps and s in gps:
            shot.metadata.gps_position.value = gps[s]
            shot.metadata.gps_accuracy.value = acc[s]
    for i, (Ri, o) in st.insts.items():
        rec.rig_instances[i].pose = lib_pose(Ri, o)
    for p, x in st.points.items():
        rec.create_point(p, x)
    count = {}
    for s, p, xy, sd, d in pr.obs:
        k = count[s] = count.get(s, -1) + 1
        o = pymap.Observation(float(xy[0]), float(xy[1]), sd, 1, 2, 3, k)
        if d is not None:
            o.depth_prior = pymap.Depth(value=d[0], is_radial=d[1], std_deviation=d[2])
        rec.add_observation(s, p, o)
    return rec


def from_map(rec, pr, st):
    out = st.copy()
    for c in st.cams:
        out.cams[c] = br.params_of(pr.models[c], rec.cameras[c])
    for r in st.rigs:
        out.rigs[r] = pose_pair(rec.rig_cameras[r].pose)
    for i in st.insts:
        out.insts[i] = pose_pair(rec.rig_instances[i].pose)
    for p in st.points:
        out.points[p] = np.array(rec.points[p].coordinates)
    for c in st.cams:
        b = rec.biases[c]
        out.biases[c] = (gen.rodrigues(np.asarray(b.rotation)), np.asarray(b.translation), b.scale)
    return out


def neighbours(common, inside, least, most, inst):
    """Shots sharing points with a set, with their rigs; None if ambiguous."""
    n = {}
    pts = set()
    for s in inside:
        pts |= common[s]
    for s in common:
        if s not in inside:
            k = len(common[s] & pts)
            if k:
                n[s] = k
    good = [s for s in n if n[s] >= least]
    if len(good) > most:
        return None
    take = {inst[s] for s in good}
    return {s for s in common if inst[s] in take}


def region(common, inst, centre, radius, least, most):
    inside = {s for s in common if inst[s] == inst[centre]}
    for _ in range(1, radius):
        if len(inside) >= most:
            break
        more = neighbours(common, inside, least, most - len(inside), inst)
        if more is None:
            return None, None
        inside = inside | more
    edge = neighbours(common, inside, 1, 10**6, inst)
    return inside, edge


def settings(rng):
    from opensfm import config

    c = config.default_config()
    c.update(loss_function=str(rng.choice(LOSSES)), loss_function_threshold=float(rng.choice([0.5, 1.0, 2.0])), bundle_analytic_derivatives=bool(rng.integers(2)),
             optimize_camera_parameters=bool(rng.random() < 0.7), bundle_use_gps=bool(rng.random() < 0.8), bundle_use_gcp=True, processes=int(rng.choice([1, 2])),
             bundle_max_iterations=int(rng.choice([1, 30, 100])), align_method=str(rng.choice(["naive", "naive", "orientation_prior", "auto"])),
             align_orientation_prior=str(rng.choice(["horizontal", "vertical", "no_roll"])), gcp_global_weight=float(rng.choice([0.01, 0.1])))
    for k in ("exif_focal_sd", "aspect_ratio_sd", "principal_point_sd", "radial_distortion_k1_sd", "radial_distortion_k2_sd", "radial_distortion_k3_sd",
              "radial_distortion_k4_sd", "tangential_distortion_p1_sd", "tangential_distortion_p2_sd", "rig_translation_sd", "rig_rotation_sd"):
        c[k] = float(rng.choice([0.01, 0.05, 0.2]))
    return c


def apply_settings(pr, c):
    pr.loss = (c["loss_function"], c["loss_function_threshold"])
    pr.cam_sd = {"focal": c["exif_focal_sd"], "aspect_ratio": c["aspect_ratio_sd"], "c": c["principal_point_sd"], "k1": c["radial_distortion_k1_sd"],
                 "k2": c["radial_distortion_k2_sd"], "k3": c["radial_distortion_k3_sd"], "k4": c["radial_distortion_k4_sd"],
                 "p1": c["tangential_distortion_p1_sd"], "p2": c["tangential_distortion_p2_sd"]}
    pr.rig_sd = (c["rig_translation_sd"], c["rig_rotation_sd"])


def gcps(rng, pr, truth, st, topo, sub=None):
    """Control points seen by some of the shots."""
    from opensfm import pymap

    out = []
    for k in range(int(rng.integers(1, 5))):
        g = pymap.GroundControlPoint()
        g.id = "g%d" % k
        X = rng.uniform(-1, 1, 3)
        if rng.random() < 0.8:
            lat, lon, alt = topo.to_lla(*X)
            g.lla = {"latitude": lat, "longitude": lon, "altitude": alt}
            g.has_altitude = bool(rng.random() < 0.7)
        n = 0
        for s in pr.shots:
            R, o = pr.shot_pose(truth, s)
            Y = (X - o) @ R
            if Y[2] > 0.5 and rng.random() < 0.7:
                ob = pymap.GroundControlPointObservation()
                ob.shot_id = s
                ob.projection = gen.reference_project(truth.cams[pr.shots[s][1]], Y[None])[0] + rng.normal(size=2) * 1e-4
                g.add_observation(ob)
                n += 1
        if rng.random() < 0.3:
            ob = pymap.GroundControlPointObservation()
            ob.shot_id = "elsewhere"
            ob.projection = np.zeros(2)
            g.add_observation(ob)
        out.append(g)
    return out


def add_gcps(pr, st, gs, rec, c, topo, among, terms):
    """The documented constraints of control points."""
    from opensfm import pygeometry

    def spot(g, lla):
        # an unknown altitude is taken as zero
        return np.array(topo.to_topocentric(lla["latitude"], lla["longitude"], lla["altitude"] if g.has_altitude else 0.0))

    start = {}
    total = 0
    for g in gs:
        os_, bs = [], []
        for o in g.observations:
            if o.shot_id in pr.shots:
                sh = rec.shots[o.shot_id]
                os_.append(sh.pose.get_origin())
                bs.append(sh.pose.get_rotation_matrix().T @ sh.camera.pixel_bearing(o.projection))
        ok = False
        if len(os_) >= 2:
            ok, X = pygeometry.triangulate_bearings_midpoint(np.array(os_), np.array(bs), [1.0] * len(os_), np.radians(0.1), 1e-3)
        lla = dict(g.lla)
        if ok or lla:
            total += 1
        total += sum(o.shot_id in among for o in g.observations)
        if ok:
            start[g.id] = np.array(X)
        elif lla:
            start[g.id] = spot(g, lla)
    w = c["gcp_global_weight"] * terms / max(1, total)
    for g in gs:
        if g.id not in start:
            continue
        k = "gcp-" + g.id
        st.points[k] = start[g.id]
        lla = dict(g.lla)
        if lla:
            sd = np.array([c["gcp_horizontal_sd"], c["gcp_horizontal_sd"], c["gcp_vertical_sd"]]) / w
            pr.point_prior[k] = (spot(g, lla), sd, g.has_altitude)
        for o in g.observations:
            if o.shot_id in among:
                pr.obs.append((o.shot_id, k, np.array(o.projection), 0.001 / w, None))


def average_priors(pr, gps, acc, insts, only=None):
    for i in insts:
        ss = [s for s in pr.shots if pr.shots[s][0] == i and s in gps]
        if only is not None and any(s not in only for s in pr.shots if pr.shots[s][0] == i):
            continue
        if ss:
            cam = next(pr.shots[s][1] for s in pr.shots if pr.shots[s][0] == i)
            pr.inst_prior[i] = (np.mean([gps[s] for s in ss], 0), np.full(3, np.mean([acc[s] for s in ss])), cam)


def part(pr, insts=None, shots=None):
    """A copy of a problem."""
    q = br.Problem()
    for k, v in vars(pr).items():
        setattr(q, k, v.copy() if isinstance(v, (dict, list)) else v)
    q._index = None
    return q


def maps(chk, rng):
    from opensfm import pygeometry, pymap, reconstruction as orec

    for n in range(chk.n(200, 1500)):
        many = rng.random() < 0.25
        rigs = 1 if many else int(rng.integers(1, 4))
        pr, truth = world(rng, insts=13 if many else int(rng.integers(3, 7)), rigs=rigs, points=25 if many else 40)
        if rng.random() < 0.3 and len(truth.rigs) == 1:
            # the default rig camera carries the name of its camera
            truth.rigs = {"c0": (np.eye(3), np.zeros(3))}
            pr.rig_prior = dict(truth.rigs)
            pr.shots = {s: (i, c, "c0") for s, (i, c, r) in pr.shots.items()}
        noise = float(rng.choice([0.0, 0.003]))
        pr.obs = [(s, p, xy + rng.normal(size=2) * noise, float(rng.choice([0.002, 0.004])), d) for s, p, xy, _, d in pr.obs]
        for k in range(0, len(pr.obs), 7):
            if rng.random() < 0.3:
                s, p, xy, sd, _ = pr.obs[k]
                R, o = pr.shot_pose(truth, s)
                pr.obs[k] = (s, p, xy, sd, (float(np.linalg.norm(truth.points[p] - o) * rng.uniform(0.95, 1.05)), True, 0.3))
        gps = {s: pr.shot_pose(truth, s)[1] + rng.normal(size=3) * noise * 30 for s in pr.shots if rng.random() < 0.85}
        acc = {s: float(rng.uniform(0.5, 5)) for s in gps}
        # extremely different accuracies of a rig average to something else than the instance's
        start = nudge(rng, truth, float(rng.choice([0.01, 0.02])))
        if rng.random() < 0.5 or "c0" in start.rigs:
            start.rigs = dict(truth.rigs)
        pr.cam_prior = {c: nudge_camera(rng, p, 0.01) for c, p in truth.cams.items()}
        for c in start.cams:
            start.cams[c] = {**start.cams[c], "distortion": [v if k in br.SD_ORDER else w for k, v, w in
                                                             zip(gen.DNAMES[pr.models[c]], start.cams[c].get("distortion", []), pr.cam_prior[c].get("distortion", []))]}
        c = settings(rng)
        rec = to_map(rng, pr, start, gps, acc)
        topo = rec.reference
        start = from_map(rec, pr, start)
        apply_settings(pr, c)
        cpri = {k: gen.make_camera(p, k) for k, p in pr.cam_prior.items()}
        rpri = {k: pymap.RigCamera(lib_pose(*v), k) for k, v in pr.rig_prior.items()}
        gs = gcps(rng, pr, truth, start, topo) if rng.random() < 0.4 else []
        what = ("bundle", "local", "poses")[(n * chk.shards + chk.shard) % 3]
        data = dict(settings={k: c[k] for k in ("loss_function", "bundle_use_gps", "align_method", "align_orientation_prior", "optimize_camera_parameters")}, gcp=len(gs),
                    models=pr.models, rigs=sorted(pr.rig_prior), noise=noise)
        chk.case(what, "%d shots" % (len(pr.shots) // 5 * 5), sig=(chk.shard, n))
        q = part(pr)
        fixed = set()
        if what == "bundle":
            if c["align_method"] == "auto":
                line = len({s for s in gps}) < 3 if c["bundle_use_gps"] else True
                pts = [pr.shot_pose(start, s)[1] for s in gps] if c["bundle_use_gps"] else []
                if gs:
                    c["align_method"] = "naive"
                elif len(pts) >= 3:
                    ev = np.linalg.eigvalsh(np.cov(np.array(pts).T))
                    if not (ev[2] / max(ev[1], 1e-12) < 3e3 and ev[1] > 1e-6):
                        c["align_method"] = "naive"
            method = c["align_method"]
            if method == "auto":
                method = "naive" if c["bundle_use_gps"] and len(gps) >= 3 else "orientation_prior"
                chk.count("alignment methods detected")
                got = orec.pysfm.BAHelpers.detect_alignment_constraints(rec.map, c, [])
                chk.expect(got == method, "the detected alignment method is not that of the data", got=got, want=method, positions=len(gps), gps=c["bundle_use_gps"])
            if method == "orientation_prior" and c["align_orientation_prior"] in ("vertical", "horizontal"):
                v = np.array([0, 0, -1.0]) if c["align_orientation_prior"] == "vertical" else np.array([0, -1.0, 0])
                q.ups = [(s, v, 1e-3) for s in q.shots]
            if c["bundle_use_gps"]:
                average_priors(q, gps, acc, start.insts)
            single_cam = len(q.models) == 1
            if single_cam and rng.random() < 0.4:
                c["bundle_compensate_gps_bias"] = True
                b = pygeometry.Similarity(rng.normal(size=3) * 0.02, rng.normal(size=3) * 0.2, float(rng.uniform(0.95, 1.05)))
                rec.set_bias("c0", b)
                start = from_map(rec, pr, start)
            if not c["optimize_camera_parameters"]:
                fixed |= {("cam", k) for k in start.cams}
            lock = len(pr.shots) // len(start.rigs) <= 10
            fixed |= {("rig", r) for r in start.rigs if lock or r in start.cams}
            beg = start.copy()
            if gs:
                add_gcps(q, beg, gs, rec, c, topo, set(q.shots), len(beg.insts) + len(q.obs))
            ok, rep = chk.guard(lambda: orec.bundle(rec, cpri, rpri, gs, c), "bundle")
            if not ok:
                continue
            after = from_map(rec, pr, start)
            chk.count("global adjustments")
            its, c0, c1, term = judge_costs(chk, q, beg, None if gs else after, rep["brief_report"], "bundle", **data)
            compare_fixed(chk, q, start, after, fixed, "bundle")
            chk.expect(its <= c["bundle_max_iterations"] + 1, "bundle: more iterations than allowed", got=its)
            judge_errors(chk, pr, after, lambda p: rec.points[p].reprojection_errors, "bundle")
            chk.expect(rep["num_images"] == len(pr.shots) and rep["num_points"] == len(start.points) and rep["num_reprojections"] == len(pr.obs),
                       "bundle: reported counts", got={k: rep[k] for k in ("num_images", "num_points", "num_reprojections")})
            if noise == 0 and c["bundle_max_iterations"] == 100 and not gs and method == "naive" and not q.ups:
                err = [np.abs(e).max() for e in pr.projections(after, unit=True)]
                chk.extreme("error left without noise", float(np.median(err)))
        elif what == "local":
            common = {s: set() for s in pr.shots}
            for s, p, *_ in pr.obs:
                common[s].add(p)
            inst = {s: pr.shots[s][0] for s in pr.shots}
            centre = str(rng.choice(sorted(pr.shots)))
            c["local_bundle_radius"] = int(rng.integers(1, 4))
            c["local_bundle_min_common_points"] = int(rng.choice([3, 10, 20]))
            c["local_bundle_max_shots"] = int(rng.choice([3, 6, 30]))
            inside, edge = region(common, inst, centre, c["local_bundle_radius"], c["local_bundle_min_common_points"], c["local_bundle_max_shots"])
            if inside is None:
                chk.count("skipped: ambiguous neighbourhood")
                inside, edge = orec.pysfm.BAHelpers.shot_neighborhood_ids(rec.map, centre, c["local_bundle_radius"], c["local_bundle_min_common_points"],
                                                                          c["local_bundle_max_shots"])
                inside, edge = set(inside), set(edge)
            keep = inside | edge
            used_inst = {inst[s] for s in keep}
            free_pts = set().union(*(common[s] for s in inside)) if inside else set()
            q.shots = {s: v for s, v in q.shots.items() if s in keep}
            q.obs = [o for o in q.obs if o[0] in keep and o[1] in free_pts]
            q.rig_prior = {r: v for r, v in q.rig_prior.items() if r in {pr.shots[s][2] for s in keep}}
            if c["bundle_use_gps"]:
                average_priors(q, gps, acc, used_inst, only=inside)
            fixed |= {("cam", k) for k in start.cams} | {("rig", r) for r in start.rigs}
            fixed |= {("inst", i) for i in start.insts if not any(inst[s] == i for s in inside)}
            fixed |= {("point", p) for p in start.points if p not in free_pts}
            beg = start.copy()
            if gs:
                full = q.shots
                q.shots = dict(pr.shots)
                add_gcps(q, beg, gs, rec, c, topo, keep, len(used_inst) + len(q.obs))
            ok, got = chk.guard(lambda: orec.bundle_local(rec, cpri, rpri, gs, centre, c), "local bundle")
            if not ok:
                continue
            ids, rep = got
            after = from_map(rec, pr, start)
            chk.count("local adjustments")
            judge_costs(chk, q, beg, None if gs else after, rep["brief_report"], "local bundle", inside=sorted(inside), edge=sorted(edge), **data)
            compare_fixed(chk, q, start, after, fixed, "local bundle")
            chk.expect(set(ids) == free_pts, "local bundle: returned points are not those adjusted", got=len(ids), want=len(free_pts))
            loc = part(q)
            loc.obs = [o for o in q.obs if not o[1].startswith("gcp-")]
            sub = after.copy()
            sub.points = {p: x for p, x in after.points.items() if p in free_pts}
            judge_errors(chk, loc, sub, lambda p: rec.points[p].reprojection_errors, "local bundle")
            chk.expect(rep["num_interior_images"] == len(inside) and rep["num_boundary_images"] == len(edge) and
                       rep["num_other_images"] == len(pr.shots) - len(keep) and rep["num_points"] == len(free_pts), "local bundle: reported counts", got=str(rep))
        else:
            some = {s for s in pr.shots if rng.random() < 0.6} or {next(iter(pr.shots))}
            if rng.random() < 0.5:
                take = {pr.shots[s][0] for s in some}
                some = {s for s in pr.shots if pr.shots[s][0] in take}
            used = {pr.shots[s][0] for s in some}
            mem = {s for s in pr.shots if pr.shots[s][0] in used}
            q.obs = [o for o in q.obs if o[0] in some]
            q.rig_prior = {r: v for r, v in q.rig_prior.items() if r in {pr.shots[s][2] for s in mem}}
            q.cam_prior = {k: v for k, v in q.cam_prior.items() if k in {pr.shots[s][1] for s in mem}}
            beg = start.copy()
            beg.cams = {k: v for k, v in start.cams.items() if k in q.cam_prior}
            if c["bundle_use_gps"]:
                average_priors(q, gps, acc, used, only=some)
            partial = {i for i in used if any(s not in some for s in pr.shots if pr.shots[s][0] == i)}
            fixed |= {("cam", k) for k in start.cams} | {("rig", r) for r in start.rigs} | {("point", p) for p in start.points}
            fixed |= {("inst", i) for i in start.insts if i not in used or i in partial}
            ok, rep = chk.guard(lambda: orec.bundle_shot_poses(rec, some, cpri, rpri, c), "bundle of shot poses")
            if not ok:
                continue
            after = from_map(rec, pr, start)
            fin = after.copy()
            fin.cams = {k: v for k, v in after.cams.items() if k in q.cam_prior}
            chk.count("pose adjustments")
            n_, c0, c1, _ = judge_costs(chk, q, beg, None, rep["brief_report"], "shot poses", some=sorted(some), **data)
            chk.close(c1, q.cost(fin), 1e-5, "shot poses: results are not those of the final cost", rel=True, some=sorted(some), **data)
            compare_fixed(chk, q, start, after, fixed, "shot poses")


def run(chk):
    rng = chk.rng_for("c18")
    problems(chk, rng)
    recovery(chk, chk.rng_for("recovery"))
    single(chk, chk.rng_for("single"))
    maps(chk, chk.rng_for("maps"))
