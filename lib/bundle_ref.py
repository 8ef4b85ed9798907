"""The problem bundle adjustment states, evaluated independently.

State (all dictionaries):
  cams[id]     parameters of a camera (as in gen)
  rigs[id]     (R, o): rotation camera to rig, position in the rig
  insts[id]    (R, o): rotation rig to world, position in the world
  points[id]   position
  biases[id]   (R, t, s)
  scales[id]   scale of an instance (relative motions)
Problem: everything that does not change.
"""
import numpy as np

import gen

SD_ORDER = ["focal", "aspect_ratio", "c", "k1", "k2", "p1", "p2", "k3", "k4"]


def rho(name, a, s):
    s = np.asarray(s, float)
    b = a * a
    if name == "TrivialLoss":
        return s
    if name == "HuberLoss":
        return np.where(s <= b, s, 2 * a * np.sqrt(s) - b)
    if name == "SoftLOneLoss":
        return 2 * b * (np.sqrt(1 + s / b) - 1)
    if name == "CauchyLoss":
        return b * np.log1p(s / b)
    if name == "ArctanLoss":
        return a * np.arctan2(s, a)
    if name == "TukeyLoss":
        return np.where(s <= b, b / 3 * (1 - np.clip(1 - s / b, 0, None) ** 3), b / 3)
    raise KeyError(name)


def params_of(model, camera):
    """Plain parameters of a library camera."""
    q = {k.name: v for k, v in camera.get_parameters_map().items()}
    p = {"model": model, "width": camera.width, "height": camera.height}
    for k in ("focal", "aspect_ratio", "cx", "cy", "transition"):
        if k in q:
            p[k] = q[k]
    p["distortion"] = [q[k] for k in gen.DNAMES[model]]
    return p


def log(R):
    return gen.log_rotation(R)


def wrap(d):
    return d - 2 * np.pi if d > np.pi else d + 2 * np.pi if d < -np.pi else d


def cubic(p, x):
    """Uniform cubic (Catmull-Rom) interpolation of four values."""
    a = 0.5 * (-p[0] + 3 * p[1] - 3 * p[2] + p[3])
    b = 0.5 * (2 * p[0] - 5 * p[1] + 4 * p[2] - p[3])
    c = 0.5 * (-p[0] + p[2])
    return ((a * x + b) * x + c) * x + p[1]


def bicubic(grid, r, c):
    r0, c0 = int(np.floor(r)), int(np.floor(c))
    h, w = grid.shape
    rows = []
    for i in range(-1, 3):
        rr = min(max(r0 + i, 0), h - 1)
        rows.append(cubic([grid[rr, min(max(c0 + j, 0), w - 1)] for j in range(-1, 3)], c - c0))
    return cubic(rows, r - r0)


class State:
    def __init__(self):
        self.cams, self.rigs, self.insts, self.points, self.biases, self.scales = {}, {}, {}, {}, {}, {}

    def copy(self):
        s = State()
        for k in vars(self):
            setattr(s, k, dict(getattr(self, k)))
        return s


class Problem:
    def __init__(self):
        self.models = {}
        self.cam_prior = {}  # camera -> parameters
        self.cam_sd = dict.fromkeys(SD_ORDER, 1.0)
        self.rig_prior = {}  # rig camera -> (R, o)
        self.rig_sd = (1.0, 1.0)  # translation, rotation
        self.shots = {}  # shot -> (instance, camera, rig camera)
        self.inst_prior = {}  # instance -> (position, std, camera giving the bias)
        self.point_prior = {}  # point -> (position, std, altitude?)
        self.obs = []  # (shot, point, xy, sd, depth or None); depth (value, radial, sd)
        self.loss = ("CauchyLoss", 1.0)
        self.motion_loss = ("CauchyLoss", 1.0)
        self.motions = []  # (i, j, r, t, s, multiplier, observed scale, matrix)
        self.rotations = []  # (shot i, shot j, r, matrix)
        self.common = []  # (shot i, shot j, margin, sd)
        self.heatmaps = []  # (shot, grid, resolution, xoff, yoff, sd)
        self.ups = []  # (shot, vector, sd)
        self.pans, self.tilts, self.rolls = [], [], []  # (shot, angle, sd)
        self.linear = []  # (s0, s1, s2, alpha, psd, osd)
        self.gauge = None  # (instance, instance, distance)
        self.groups = 0  # number of standard deviations adjusted
        self._index = None

    # -------------------------------------------------------------- geometry
    def shot_pose(self, st, shot):
        """Rotation camera to world and position."""
        i, _, r = self.shots[shot]
        (Ri, oi), (Rr, orr) = st.insts[i], st.rigs[r]
        return Ri @ Rr, oi + Ri @ orr

    def index(self):
        if self._index is None or self._index[0] != len(self.obs):
            g = {}
            for k, (s, p, xy, sd, d) in enumerate(self.obs):
                g.setdefault(s, []).append(k)
            self._index = (len(self.obs), {s: np.array(v) for s, v in g.items()})
        return self._index[1]

    def projections(self, st, unit=False):
        """Residuals of all observations (list, in order)."""
        out = [None] * len(self.obs)
        for s, ks in self.index().items():
            R, o = self.shot_pose(st, s)
            X = np.array([st.points[self.obs[k][1]] for k in ks])
            Y = (X - o) @ R
            xy = np.array([self.obs[k][2] for k in ks])
            sd = np.ones(len(ks)) if unit else np.array([self.obs[k][3] for k in ks])
            p = st.cams[self.shots[s][1]]
            if p["model"] == "spherical":
                lon, lat = xy[:, 0] * 2 * np.pi, -xy[:, 1] * 2 * np.pi
                b = np.stack([np.cos(lat) * np.sin(lon), -np.sin(lat), np.cos(lat) * np.cos(lon)], 1)
                e = Y / np.linalg.norm(Y, axis=1)[:, None] - b
            else:
                e = gen.reference_project(p, Y) - xy
            e = e / sd[:, None]
            for j, k in enumerate(ks):
                out[k] = e[j]
        return out

    def depths(self, st):
        out = []
        for s, p, _, _, d in self.obs:
            if d is not None:
                R, o = self.shot_pose(st, s)
                Y = (st.points[p] - o) @ R
                out.append(np.array([((np.linalg.norm(Y) if d[1] else Y[2]) - d[0]) / d[2]]))
        return out

    def camera_residual(self, cam, p):
        q = self.cam_prior[cam]
        sd, r = self.cam_sd, []
        if p["model"] == "spherical":
            return np.zeros(1)

        def add(v, s):
            r.append(v / max(s, np.finfo(float).eps))

        add(np.log(p["focal"] / q["focal"]), sd["focal"])
        if "aspect_ratio" in p:
            add(np.log(p["aspect_ratio"] / q["aspect_ratio"]), sd["aspect_ratio"])
            add(p["cx"] - q["cx"], sd["c"])
            add(p["cy"] - q["cy"], sd["c"])
        if "transition" in p:
            add(p["transition"] - q["transition"], 1.0)
        for n, a, b in zip(gen.DNAMES[p["model"]], p["distortion"], q["distortion"]):
            add(a - b, sd.get(n, 0.0))
        return np.array(r)

    def terms(self, st, sigmas=None):
        """All residual blocks: (kind, residual, loss)."""
        T = []
        for cam, p in st.cams.items():
            if p["model"] == "dual":
                v, e = p["transition"], 1e-10
                with np.errstate(all="ignore"):
                    T.append(("barrier", np.array([np.log(v + e) + np.log(1 - v + e) + 2 * np.log(0.5)]), None))
            T.append(("camera prior", self.camera_residual(cam, p), None))
        for pt, (x, sd, alt) in self.point_prior.items():
            e = (st.points[pt] - x) / np.maximum(sd, np.finfo(float).eps)
            T.append(("point prior", e if alt else e[:2], None))
        for i, (x, sd, cam) in self.inst_prior.items():
            R, t, s = st.biases.get(cam, (np.eye(3), np.zeros(3), 1.0))
            e = (st.insts[i][1] - (s * R @ x + t)) / sd
            T.append(("position prior", e / (1.0 if sigmas is None else sigmas), None))
        for k in range(self.groups):
            T.append(("deviation", np.array([np.log(1 / np.sqrt(2 * np.pi * ((1.0 if sigmas is None else sigmas) ** 2 + 1e-20)))]), None))
        for r, (R, o) in self.rig_prior.items():
            Rs, os_ = st.rigs[r]
            T.append(("rig prior", np.concatenate([(log(Rs) - log(R)) / self.rig_sd[1], (os_ - o) / self.rig_sd[0]]), None))
        for e in self.projections(st):
            T.append(("projection", e, self.loss))
        for e in self.depths(st):
            T.append(("depth", e, self.loss))
        for i, j, r, t, s, mult, obs, M in self.motions:
            (Ri, oi), (Rj, oj) = st.insts[i], st.insts[j]
            si, sj = st.scales[i], st.scales[j]
            e = np.concatenate([log(gen.rodrigues(r) @ Ri.T @ Rj), t - sj * Rj.T @ (oi - oj), [s - sj / si if obs else 0.0]])
            T.append(("relative motion", M @ e, (self.motion_loss[0], self.motion_loss[1] * mult)))
        for a, b, r, M in self.rotations:
            Ra, Rb = self.shot_pose(st, a)[0], self.shot_pose(st, b)[0]
            T.append(("relative rotation", M @ log(gen.rodrigues(r) @ Ra.T @ Rb), self.motion_loss))
        for a, b, m, sd in self.common:
            e = self.shot_pose(st, a)[1] - self.shot_pose(st, b)[1]
            e[:2] = np.maximum(0, np.abs(e[:2]) - m)
            T.append(("common position", e / sd, ("TukeyLoss", 1.0)))
        for s, grid, res, xo, yo, sd in self.heatmaps:
            o = self.shot_pose(st, s)[1]
            h, w = grid.shape
            T.append(("heatmap", np.array([bicubic(grid, h / 2 - (o[1] - yo) / res, w / 2 + (o[0] - xo) / res) / sd]), None))
        for s, v, sd in self.ups:
            if sd > 0:
                T.append(("up vector", (self.shot_pose(st, s)[0] @ (v / np.linalg.norm(v)) - [0, 0, 1]) / sd, ("CauchyLoss", 1.0)))
        for s, a, sd in self.pans:
            if sd > 0:
                z = self.shot_pose(st, s)[0][:, 2]
                T.append(("pan", np.array([wrap(np.arctan2(z[0], z[1]) - a) / sd]), ("CauchyLoss", 1.0)))
        for s, a, sd in self.tilts:
            if sd > 0:
                z = self.shot_pose(st, s)[0][:, 2]
                T.append(("tilt", np.array([wrap(-np.arctan2(z[2], np.hypot(z[0], z[1])) - a) / sd]), ("CauchyLoss", 1.0)))
        for s, a, sd in self.rolls:
            if sd > 0:
                R = self.shot_pose(st, s)[0]
                x, z = R[:, 0], R[:, 2]
                right = np.array([z[1], -z[0], 0]) / np.hypot(z[0], z[1])
                v = z @ np.cross(x, right)
                # left alone where it is singular
                away = v > -(1 - 1e-5) and np.hypot(z[0], z[1]) >= 1e-5
                T.append(("roll", np.array([wrap(np.arcsin(min(v, 1.0)) - a) / sd if away else 0.0]), ("CauchyLoss", 1.0)))
        for a, b, c, al, psd, osd in self.linear:
            (R0, o0), (R1, o1), (R2, o2) = (self.shot_pose(st, q) for q in (a, b, c))
            e = (al - np.linalg.norm(o1 - o0) / np.linalg.norm(o2 - o0)) / psd
            w = log(gen.rodrigues(al * log(R2 @ R0.T)) @ (R0 @ R1.T)) / osd
            T.append(("linear motion", np.concatenate([[e] * 3, w]), ("CauchyLoss", 1.0)))
        if self.gauge:
            a, b, d = self.gauge
            T.append(("gauge", np.array([np.log(np.linalg.norm(st.insts[a][1] - st.insts[b][1]) / d)]), None))
        return T

    def cost(self, st, sigmas=None):
        c = 0.0
        for kind, e, loss in self.terms(st, sigmas):
            s = float(e @ e)
            c += 0.5 * float(s if loss is None else rho(loss[0], loss[1], s))
        return c

    def vector(self, st):
        """Residuals whose half squared norm is the cost."""
        v = []
        for kind, e, loss in self.terms(st):
            s = float(e @ e)
            f = 1.0 if loss is None or s == 0 else np.sqrt(float(rho(loss[0], loss[1], s)) / s)
            v.append(np.atleast_1d(e) * f)
        return np.concatenate(v)
