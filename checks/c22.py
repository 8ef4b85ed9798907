"""C22: depth maps report only geometry supported by the images."""
import os

import numpy as np

import gen
import scenes
from checks.c17 import Rate

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 500, "thorough": 880}
REQUIRED = ["depth maps estimated", "scores recomputed", "depths judged", "masked or flat pixels", "depth maps cleaned", "images of depth maps chosen", "ranges of depths", "pixels cleaned", "depth maps pruned",
            "pixels pruned", "datasets", "shots of datasets", "points of merged clouds", "datasets with a failing image"]
RULE = ("one case = one depth estimation, cleaning or pruning of views of a rendered scene of planes and spheres, or the whole action on a rendered dataset; the reported depths are "
        "compared with the rendered ones and all scores, cleaned pixels and pruned points are recomputed independently; non-trivial = at least two views")
ASSUMPTIONS = ["the brute force method ignores masks and does not reject uniform patches", "accuracy and completeness of estimated depths are judged as shares",
               "decisions within rounding of a threshold are not judged"]


# ------------------------------------------------------------------ world
class World:
    """Textured planes and spheres."""

    def __init__(self, rng, relief=True, wavelength=0.8):
        n = np.array([rng.uniform(-0.35, 0.35), rng.uniform(-0.35, 0.35), 1.0])
        self.planes = [(n / np.linalg.norm(n), 0.0)]
        self.spheres = []
        if relief and rng.random() < 0.7:
            if rng.random() < 0.5:
                n = np.array([rng.uniform(-0.6, 0.6), rng.uniform(-0.6, 0.6), 1.0])
                self.planes.append((n / np.linalg.norm(n), 0.0))
            else:
                self.spheres.append((np.array([rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5), rng.uniform(-0.5, 0.8)]), rng.uniform(1, 2.2)))
        self.flat = rng.random() < 0.4
        self.waves = []
        for k in range(14):
            v = rng.normal(size=3)
            self.waves.append((v / np.linalg.norm(v) * 2 * np.pi / (wavelength * rng.uniform(0.8, 3)), rng.uniform(0, 2 * np.pi, 3), rng.uniform(10, 26)))

    def hit(self, o, d):
        """Distance along the rays (last axis of d has 3), and normals."""
        t = np.full(d.shape[:-1], np.inf)
        n = np.zeros(d.shape)
        # the visible surface is the upper envelope of the planes, and the spheres
        with np.errstate(all="ignore"):
            tp, npl = np.full(t.shape, -np.inf), np.zeros(d.shape)
            for m, c in self.planes:
                s = (c - o @ m) / (d @ m)
                # planes are seen from above; solids are intersections of half spaces
                better = s > tp
                tp = np.where(better, s, tp)
                npl[better] = m
            t, n = np.where(tp > 0, tp, np.inf), npl
            for c, r in self.spheres:
                b = d @ (o - c)
                a = (d * d).sum(-1)
                disc = b * b - a * ((o - c) @ (o - c) - r * r)
                s = (-b - np.sqrt(disc)) / a
                better = (disc > 0) & (s > 0) & (s < t)
                t = np.where(better, s, t)
                n[better] = ((o + s[..., None] * d - c) / r)[better]
        return t, n

    def color(self, X):
        g = [128 + sum(a * np.cos(X @ k + p[c]) for k, p, a in self.waves) for c in range(3)]
        g = np.clip(np.stack(g, -1), 0, 255)
        if self.flat:
            g[X[..., 0] > 2.0] = 90
        return np.where(np.isfinite(X).all(-1)[..., None], g, 0)

    def distance(self, X):
        """Distance to the nearest surface (signed ones combined)."""
        solid = np.max([X @ m - c for m, c in self.planes], axis=0)
        ds = [np.abs(solid)] + [np.abs(np.linalg.norm(X - c, axis=-1) - r) for c, r in self.spheres]
        return np.min(ds, axis=0)


class View:
    def __init__(self, K, R, t, w, h):
        self.K, self.R, self.t, self.w, self.h = K, R, t, w, h
        self.o = -R.T @ t

    def rays(self):
        y, x = np.mgrid[: self.h, : self.w]
        return np.stack([x, y, np.ones_like(x)], -1) @ np.linalg.inv(self.K).T

    def render(self, world):
        d = self.rays() @ self.R  # depth along the axis = ray parameter
        t, n = world.hit(self.o, d)
        with np.errstate(all="ignore"):
            X = self.o + t[..., None] * d
        self.depth, self.X = t, X
        self.color = np.rint(world.color(X)).astype(np.uint8)
        self.gray = np.rint(world.color(X).mean(-1)).astype(np.uint8)
        self.normal = n @ self.R.T  # of the camera
        with np.errstate(all="ignore"):
            nx = (self.normal * (t[..., None] * self.rays())).sum(-1)
            self.plane = -self.normal / nx[..., None]

    def project(self, X):
        q = X @ self.R.T + self.t
        with np.errstate(all="ignore"):
            p = q @ self.K.T
            return p[..., 0] / p[..., 2], p[..., 1] / p[..., 2], q[..., 2]


def look(rng, o, at, roll):
    z = at - o
    z = z / np.linalg.norm(z)
    x = np.cross(np.array([np.sin(roll), np.cos(roll), 0.0]), z)
    x /= np.linalg.norm(x)
    R = np.array([x, np.cross(z, x), z])
    return R


def views(rng, n, world, sizes=None):
    out = []
    roll = rng.uniform(0, 2 * np.pi)
    for k in range(n):
        w, h = (sizes or [(90, 70), (70, 90), (80, 80), (110, 60)])[rng.integers(len(sizes or [0] * 4))]
        a = rng.uniform(0, 2 * np.pi)
        o = np.array([np.cos(a), np.sin(a), 0]) * (rng.uniform(1.0, 2.4) if k else 0) + [0, 0, rng.uniform(7.5, 10.5)]
        R = look(rng, o, rng.uniform(-0.4, 0.4, 3), roll + rng.uniform(-0.4, 0.4))
        f = rng.uniform(0.8, 1.1) * max(w, h)
        K = np.array([[f, 0, (w - 1) / 2 + rng.uniform(-3, 3)], [0, f * rng.choice([1, 1, 1.05]), (h - 1) / 2 + rng.uniform(-3, 3)], [0, 0, 1]])
        v = View(K, R, -R @ o, w, h)
        v.render(world)
        out.append(v)
    return out


def interpolate(im, x, y):
    """Bilinear, zero outside; and whether that is beyond doubt."""
    h, w = im.shape[:2]
    with np.errstate(all="ignore"):
        inside = (x >= 0) & (x < w - 1) & (y >= 0) & (y < h - 1)
        edge = (np.abs(x) < 2e-3) | (np.abs(x - (w - 1)) < 2e-3) | (np.abs(y) < 2e-3) | (np.abs(y - (h - 1)) < 2e-3)
        xi, yi = np.where(inside, np.floor(x), 0).astype(int), np.where(inside, np.floor(y), 0).astype(int)
    im = im.astype(float)
    dx, dy = x - xi, y - yi
    xn, yn = np.minimum(xi + 1, w - 1), np.minimum(yi + 1, h - 1)
    v = (im[yi, xi] * (1 - dx) + im[yi, xn] * dx) * (1 - dy) + (im[yn, xi] * (1 - dx) + im[yn, xn] * dx) * dy
    return np.where(inside, v, 0.0), ~edge


# ------------------------------------------------------------------ estimation
def patches(im, r):
    return np.lib.stride_tricks.sliding_window_view(im, (2 * r + 1, 2 * r + 1))


def score_ref(V, others, plane, nghbr, size):
    """Weighted correlation of every pixel with its plane and neighbor; and where it is certain."""
    r = (size - 1) // 2
    a = V[0]
    h, w = a.h, a.w
    P = np.full((h, w), np.nan)
    sure = np.zeros((h, w), bool)
    Ki = np.linalg.inv(a.K)
    ii, jj = np.mgrid[r : h - r, r : w - r]
    A = patches(a.gray.astype(float), r)  # (h-2r, w-2r, size, size)
    center = a.gray[r : h - r, r : w - r].astype(float)
    dyy, dxx = np.mgrid[-r : r + 1, -r : r + 1]
    W = np.exp(-((A - center[..., None, None]) ** 2) / (2 * 50.0**2) - (dxx**2 + dyy**2) / (2 * 5.0**2))
    for k in range(1, len(V)):
        b = V[k]
        Q = b.R @ a.R.T
        c = Q @ a.t - b.t
        pl = plane[r : h - r, r : w - r].astype(float)
        H = b.K @ (Q + c[:, None] * pl[..., None, :]) @ Ki
        u, v, ww = [H[..., m, 0] * jj + H[..., m, 1] * ii + H[..., m, 2] for m in range(3)]
        with np.errstate(all="ignore"):
            jx, jy = (H[..., 0, 0] * ww - H[..., 2, 0] * u) / ww**2, (H[..., 1, 0] * ww - H[..., 2, 0] * v) / ww**2
            kx, ky = (H[..., 0, 1] * ww - H[..., 2, 1] * u) / ww**2, (H[..., 1, 1] * ww - H[..., 2, 1] * v) / ww**2
            x = (u / ww)[..., None, None] + jx[..., None, None] * dxx + kx[..., None, None] * dyy
            y = (v / ww)[..., None, None] + jy[..., None, None] * dxx + ky[..., None, None] * dyy
            B, ok = interpolate(b.gray, x, y)
            s = W.sum((-1, -2))
            ma, mb = (W * A).sum((-1, -2)) / s, (W * B).sum((-1, -2)) / s
            va, vb = (W * (A - ma[..., None, None]) ** 2).sum((-1, -2)) / s, (W * (B - mb[..., None, None]) ** 2).sum((-1, -2)) / s
            cov = (W * (A - ma[..., None, None]) * (B - mb[..., None, None])).sum((-1, -2)) / s
            ncc = cov / np.sqrt(va * vb)
        here = nghbr[r : h - r, r : w - r] == k
        P[r : h - r, r : w - r][here] = ncc[here]
        sure[r : h - r, r : w - r][here] = (ok.all((-1, -2)) & (va > 5) & (vb > 5) & np.isfinite(ncc) & (np.abs(x).max((-1, -2)) < 1e4))[here]
    return P, sure


def estimation(chk, rng):
    from opensfm import pydense

    good, near = Rate(), Rate()
    for n in range(chk.n(96, 1600)):
        method = ["compute_patch_match", "compute_patch_match_sample", "compute_brute_force"][n % 3]
        world = World(rng)
        V = views(rng, int(rng.integers(2, 6)), world)
        a = V[0]
        size = int(rng.choice([5, 7, 7, 9]))
        lo, hi = np.percentile(a.depth, 10) * 0.9, np.percentile(a.depth, 90) * 1.1
        planes = int(rng.choice([60, 100]))
        iterations = int(rng.choice([2, 3, 3, 4]))
        sd = float(rng.choice([1.0, 5.0, 10.0]))
        mask = np.ones((a.h, a.w), np.uint8)
        if rng.random() < 0.5:
            mask = (np.kron(rng.random((a.h // 12 + 1, a.w // 12 + 1)) < 0.7, np.ones((12, 12)))[: a.h, : a.w] * int(rng.choice([1, 255]))).astype(np.uint8)
        what = dict(method=method, views=len(V), size=(a.w, a.h), patch=size, planes=planes, iterations=iterations, sd=sd)
        chk.case("estimation", what, sig=(chk.shard, n))
        de = pydense.DepthmapEstimator()
        order = list(range(4))
        de.set_depth_range(lo, hi, planes)
        de.set_patchmatch_iterations(iterations)
        de.set_patch_size(size)
        de.set_min_patch_sd(sd)
        for k, v in enumerate(V):
            de.add_view(v.K, v.R, v.t, v.gray, mask if k == 0 else np.ones((v.h, v.w), np.uint8))
        ok, res = chk.guard(lambda: [np.array(x) for x in getattr(de, method)()], "estimate a depth map", **what)
        if not ok:
            continue
        chk.count("depth maps estimated")
        depth, plane, score, nghbr = res
        chk.expect(depth.shape == (a.h, a.w) and score.shape == depth.shape and nghbr.shape == depth.shape and plane.shape == (a.h, a.w, 3), "shape of a depth map", **what)
        chk.expect(np.isfinite(depth).all() and (depth >= 0).all(), "a depth is not finite or negative", **what)
        r = (size - 1) // 2
        border = np.ones(depth.shape, bool)
        border[r : a.h - r, r : a.w - r] = False
        chk.expect((depth[border] == 0).all(), "a depth is reported where the patch leaves the image", **what)
        sds = np.full(depth.shape, np.nan)
        sds[r : a.h - r, r : a.w - r] = patches(a.gray.astype(float), r).std((-1, -2))
        if method != "compute_brute_force":
            out = (mask == 0) | (sds < sd - 1e-3)
            chk.count("masked or flat pixels", out.sum())
            chk.expect((depth[out] == 0).all(), "a depth is reported for masked or flat pixels", n=int((depth[out] != 0).sum()), **what)
            chk.expect((score[out] == 0).all(), "a score is reported for masked or flat pixels", **what)
        rep = (depth > 0) & (score > 0.1) & (depth < hi)
        chk.expect(((nghbr[rep] >= 1) & (nghbr[rep] < len(V))).all(), "the neighbor of a pixel does not exist", **what)
        # depth and plane agree
        d = -1 / np.maximum(1e-9, -(plane.astype(float) * a.rays()).sum(-1)) * -1
        chk.expect((np.abs(d - depth)[rep] <= 1e-3 * depth[rep]).all(), "depth and plane disagree", worst=float((np.abs(d - depth)[rep] / depth[rep]).max(initial=0)), **what)
        P, sure = score_ref(V, None, plane, nghbr, size)
        sure &= rep
        if sure.any():
            chk.count("scores recomputed", sure.sum())
            e = np.abs(P - score)[sure]
            chk.extreme("difference of a score", e.max())
            chk.expect(e.max() < 0.05, "the score of a pixel is not the correlation of its plane", worst=float(e.max()), **what)
        # pixels which can be matched: textured, and the patch seen by a neighbor
        can = np.zeros(depth.shape, bool)
        for v in V[1:]:
            x, y, z = v.project(a.X)
            with np.errstate(all="ignore"):
                inside = (x > r + 2) & (x < v.w - r - 3) & (y > r + 2) & (y < v.h - r - 3)
                xi, yi = np.where(inside, x, 0).astype(int), np.where(inside, y, 0).astype(int)
                can |= inside & (np.abs(v.depth[yi, xi] / z - 1) < 0.02)
        can &= ~border & (sds > max(12, sd + 1)) & (a.depth > lo * 1.02) & (a.depth < hi * 0.98)
        if method != "compute_brute_force":
            can &= mask > 0
        step = 0.0 if method != "compute_brute_force" else (1 / lo - 1 / hi) / planes * a.depth
        strong = rep & (score > 0.85) & (sds > 12)
        err = np.abs(depth / a.depth - 1) - step
        if strong.sum() > 50:
            chk.count("depths judged", strong.sum())
            share = (err[strong] < 0.03).mean()
            chk.extreme("share of wrong depths (%s)" % method, 1 - share)
            good.add(method + " accuracy", share > 0.8, 0.15)
        if can.sum() > 200:
            share = (strong & (err < 0.03))[can].mean()
            chk.extreme("share of unreported depths (%s)" % method, 1 - share)
            near.add(method + " completeness", share > 0.6, 0.2)
        # normals
        if method != "compute_brute_force" and strong.sum() > 50:
            nn = plane / np.linalg.norm(plane, axis=-1, keepdims=True)
            ang = np.degrees(np.arccos(np.clip((nn * a.normal).sum(-1), -1, 1)))
            good.add(method + " normals", np.median(ang[strong & (err < 0.03)]) < 30, 0.15)
            chk.extreme("median angle of normals", float(np.median(ang[strong & (err < 0.03)])))
    good.judge(chk)
    near.judge(chk)


# ------------------------------------------------------------------ cleaning and pruning
def backproject(v, depth):
    return (v.rays() * depth[..., None] - v.t) @ v.R


def clean_ref(V, D, threshold, least):
    """How many views agree with every pixel: at least, and at most."""
    X = backproject(V[0], D[0].astype(float))
    lo = np.ones(D[0].shape, int)
    hi = lo.copy()
    for v, d in zip(V[1:], D[1:]):
        x, y, z = v.project(X)
        at, ok = interpolate(d, x, y)
        with np.errstate(all="ignore"):
            q = np.abs(at - z) / (z * threshold)
            lo += (z > 1e-6) & (q < 0.99) & ok
            hi += (z > -1e-6) & ((q < 1.01) | ~ok)
    return lo >= least, hi < least


def prune_ref(V, D, N, threshold):
    """Pixels certainly kept, and certainly removed."""
    X = backproject(V[0], D[0].astype(float))
    unit = [n / np.linalg.norm(n, axis=-1, keepdims=True) for n in N]
    have = D[0] > 0
    with np.errstate(all="ignore"):
        area = -unit[0][..., 2] / D[0] * V[0].K[0, 0]
    removed, doubt = np.zeros(have.shape, bool), np.zeros(have.shape, bool)
    for v, d, nn in zip(V[1:], D[1:], unit[1:]):
        x, y, z = v.project(X)
        with np.errstate(all="ignore"):
            ok = have & np.isfinite(x + y) & (z > 1e-6)
            x, y = np.where(ok, x, -99), np.where(ok, y, -99)
            near = (np.abs(x % 1 - 0.5) < 2e-3) | (np.abs(y % 1 - 0.5) < 2e-3)
            xi, yi = np.floor(x + 0.5).astype(int), np.floor(y + 0.5).astype(int)
            # positions just outside of the image round into it
            near |= (xi == -1) | (yi == -1)
            inside = ok & (xi >= 0) & (xi < v.w) & (yi >= 0) & (yi < v.h)
            xi, yi = np.clip(xi, 0, v.w - 1), np.clip(yi, 0, v.h - 1)
            at = d[yi, xi]
            q = at / ((1 - threshold) * z)
            other = -nn[yi, xi, 2] / at * v.K[0, 0]
            yes = inside & (q > 1) & (other > area) & (at > 0)
            unsure = ok & near & (xi >= 0) | inside & (at > 0) & ((np.abs(q - 1) < 1e-4) | (np.abs(other / area - 1) < 1e-4)) & (q > 1 - 1e-4)
        removed |= yes & ~unsure
        doubt |= unsure
    return have & ~removed & ~doubt, ~have | removed


def judge_points(chk, V, D, N, C, L, threshold, out, what, normals=True):
    points, normal, colors, labels = out
    keep, gone = prune_ref(V, D, N, threshold)
    n = len(points)
    chk.expect(len(normal) == n and len(colors) == n and len(labels) == n, "pruned arrays differ in length", **what)
    if n == 0:
        chk.expect(not keep.any(), "pruning loses points", lost=int(keep.sum()), **what)
        return None
    a = V[0]
    x, y, z = a.project(np.asarray(points, float).reshape(-1, 3))
    xi, yi = np.rint(x).astype(int), np.rint(y).astype(int)
    ok = (np.abs(x - xi) < 0.02) & (np.abs(y - yi) < 0.02) & (xi >= 0) & (xi < a.w) & (yi >= 0) & (yi < a.h)
    if not chk.expect(ok.all(), "a pruned point is not at a pixel of its image", n=int((~ok).sum()), **what):
        return None
    chk.expect((np.abs(z - D[0][yi, xi]) <= 1e-4 * z).all(), "a pruned point is not at the depth of its pixel", **what)
    got = np.zeros(keep.shape, int)
    np.add.at(got, (yi, xi), 1)
    chk.expect(got.max() == 1, "a pixel makes several points", **what)
    chk.count("pixels pruned", int((gone & (D[0] > 0)).sum()))
    chk.expect(not (keep & (got == 0)).any(), "pruning loses points", lost=int((keep & (got == 0)).sum()), **what)
    chk.expect(not (gone & (got > 0)).any(), "pruning keeps points which are seen better by another view, or are in free space", kept=int((gone & (got > 0)).sum()), **what)
    if normals:
        nn = N[0] / np.maximum(1e-12, np.linalg.norm(N[0], axis=-1, keepdims=True)) @ a.R
        chk.expect(np.abs(nn[yi, xi] - normal).max() < 1e-3, "normal of a pruned point", worst=float(np.abs(nn[yi, xi] - normal).max()), **what)
    chk.expect((C[0][yi, xi] == colors).all(), "color of a pruned point", **what)
    chk.expect((L[0][yi, xi] == np.asarray(labels).reshape(-1)).all(), "label of a pruned point", **what)
    return got


def cleaning(chk, rng):
    from opensfm import pydense

    for n in range(chk.n(160, 2400)):
        world = World(rng, relief=n % 2 == 1)
        V = views(rng, int(rng.integers(1, 6)), world, sizes=[(50, 40), (40, 50), (64, 48)])
        threshold = float(rng.choice([0.01, 0.01, 0.03, 0.1]))
        least = int(rng.integers(1, 5))
        noise = float(rng.choice([0, 0, 0.3, 1.0, 3.0])) * threshold
        what = dict(views=len(V), threshold=threshold, least=least, noise=noise)
        chk.case("cleaning", what, sig=(chk.shard, n))
        D, N = [], []
        for v in V:
            d = np.where(np.isfinite(v.depth), v.depth, 0) * (1 + noise * rng.normal(size=v.depth.shape))
            bad = rng.random(d.shape) < rng.choice([0, 0, 0.1])
            d[bad] *= rng.uniform(0.5, 1.5, bad.sum())
            d[rng.random(d.shape) < rng.choice([0, 0, 0.2])] = 0
            D.append(d.astype(np.float32))
            p = np.where(np.isfinite(v.plane), v.plane, 0)
            if rng.random() < 0.3:
                p = p + 0.02 * rng.normal(size=p.shape)
            N.append(p.astype(np.float32))
        C = [v.color for v in V]
        L = [rng.integers(0, 256, d.shape).astype(np.uint8) for d in D]
        dc = pydense.DepthmapCleaner()
        dc.set_same_depth_threshold(threshold)
        dc.set_min_consistent_views(least)
        dp = pydense.DepthmapPruner()
        dp.set_same_depth_threshold(threshold)
        for v, d, p, c, l in zip(V, D, N, C, L):
            dc.add_view(v.K, v.R, v.t, d)
            dp.add_view(v.K, v.R, v.t, d, p, c, l)
        ok, out = chk.guard(lambda: np.array(dc.clean()), "clean a depth map", **what)
        if ok:
            judge_clean(chk, V, D, threshold, least, out, what)
        ok, out = chk.guard(lambda: [np.array(x) for x in dp.prune()], "prune a depth map", **what)
        if ok:
            chk.count("depth maps pruned")
            judge_points(chk, V, D, N, C, L, threshold, out, what)


def judge_clean(chk, V, D, threshold, least, out, what):
    keep, drop = clean_ref(V, D, threshold, least)
    chk.count("depth maps cleaned")
    chk.count("pixels cleaned", int((drop & (D[0] > 0)).sum()))
    if not chk.expect(out.shape == D[0].shape, "shape of a cleaned depth map", **what):
        return
    chk.expect(((out == D[0]) | (out == 0)).all(), "cleaning changes depths", **what)
    chk.expect((out[keep] == D[0][keep]).all(), "cleaning removes depths confirmed by enough views", n=int((out != D[0])[keep].sum()), **what)
    chk.expect((out[drop] == 0).all(), "cleaning keeps depths not confirmed by enough views", n=int((out[drop] != 0).sum()), **what)


def coverage(chk, rng):
    """Exact depth maps of one plane: what is seen stays represented exactly once or a few times."""
    from opensfm import pydense

    rate = Rate()
    for n in range(chk.n(24, 320)):
        world = World(rng, relief=False)
        V = views(rng, int(rng.integers(2, 6)), world, sizes=[(50, 40), (40, 50), (64, 48)])
        what = dict(views=len(V))
        chk.case("coverage", what, sig=(chk.shard, n))
        P = []
        for k in range(len(V)):
            dp = pydense.DepthmapPruner()
            dp.set_same_depth_threshold(0.01)
            for v in [V[k]] + V[:k] + V[k + 1 :]:
                dp.add_view(v.K, v.R, v.t, v.depth.astype(np.float32), v.plane.astype(np.float32), v.color, np.zeros(v.depth.shape, np.uint8))
            P.append(np.array(dp.prune()[0]).reshape(-1, 3))
        P = np.concatenate(P)
        chk.count("coverage checked")
        total = sum(v.depth.size for v in V)
        from scipy.spatial import cKDTree

        T = cKDTree(P)
        foot = max(v.depth.max() / v.K[0, 0] for v in V)
        X = np.concatenate([v.X.reshape(-1, 3) for v in V])
        d, _ = T.query(X)
        chk.extreme("distance to the nearest fused point (pixels)", d.max() / foot)
        rate.add("coverage by the fused cloud", (d < 4 * foot).mean() > 0.995, 0.1)
        chk.expect(len(P) <= total, "more fused points than pixels", got=len(P), **what)
        c, _ = T.query(P, k=2)
        inside = 0
    rate.judge(chk)


# ------------------------------------------------------------------ datasets
def make_dataset(chk, rng, root, config, model):
    import cv2
    from opensfm import dataset

    world = World(rng, wavelength=0.9)
    S = scenes.Scene()
    w, h = [(100, 75), (75, 100), (90, 90)][rng.integers(3)]
    p = gen.camera_params(rng, model, 0.3, (w, h))
    p["focal"] = float(rng.uniform(0.8, 1.0))
    if "aspect_ratio" in p:
        p["aspect_ratio"] = 1.0
    if model == "perspective":
        p["k1"] = p["k2"] = 0.0
    S.cams["cam0"] = p
    roll = rng.uniform(0, 6)
    nshots = int(rng.integers(4, 7))
    for k in range(nshots):
        a = 2 * np.pi * k / nshots + rng.uniform(0, 0.3)
        o = np.array([np.cos(a), np.sin(a), 0]) * rng.uniform(0.9, 1.7) + [0, 0, rng.uniform(8, 10)]
        if rng.random() < 0.08:
            o = o + [40, 0, 0]
        R = look(rng, o, np.array([40.0, 0, 0]) * (o[0] > 20) + rng.uniform(-0.3, 0.3, 3), roll + rng.uniform(-0.3, 0.3))
        S.shots["im%02d.png" % k] = {"cam": "cam0", "R": R, "t": -R @ o}
    # points on the surface
    xy = rng.uniform(-5, 5, (150, 2))
    o = np.array([0, 0, 20.0])
    d = np.concatenate([xy, np.full((150, 1), 0.0)], 1) - o
    t, _ = world.hit(o, d)
    S.X = (o + t[:, None] * d)[np.isfinite(t)]
    S.colors = np.full((len(S.X), 3), 100)
    S.observe()
    data = S.dataset(root, config)
    cam = gen.make_camera(p, "cam0")
    m = max(w, h)
    y, x = np.mgrid[:h, :w]
    B = cam.pixel_bearing_many(np.stack([(x - (w - 1) / 2) / m, (y - (h - 1) / 2) / m], -1).reshape(-1, 2)).reshape(h, w, 3)
    with_masks, with_labels = rng.random() < 0.5, rng.random() < 0.6
    for s in S.shots:
        d = B @ S.shots[s]["R"]
        o = S.origin(s)
        t, _ = world.hit(o, d)
        with np.errstate(all="ignore"):
            X = o + t[..., None] * d
        im = np.rint(world.color(X)).astype(np.uint8)
        cv2.imwrite(os.path.join(root, "images", s), np.ascontiguousarray(im[..., ::-1]))
        for there, folder, what in ((with_masks, "masks", (np.kron(rng.random((h // 15 + 1, w // 15 + 1)) < 0.85, np.ones((15, 15)))[:h, :w] * 255)),
                                    (with_labels, "segmentations", np.kron(rng.integers(0, 5, (h // 15 + 1, w // 15 + 1)), np.ones((15, 15)))[:h, :w])):
            if there:
                os.makedirs(os.path.join(root, folder), exist_ok=True)
                cv2.imwrite(os.path.join(root, folder, s + ".png"), what.astype(np.uint8))
    data = dataset.DataSet(root)
    data.save_reconstruction([S.reconstruction()])
    data.save_tracks_manager(S.tracks_manager())
    return world, S, data


def neighbors_ref(rec, tm, num, s):
    """Score of every possible neighbor."""
    o = rec.shots[s].pose.get_origin()
    known = set(tm.get_shot_ids())
    mine = set(tm.get_shot_observations(s)) if s in known else set()
    out = {}
    for u in rec.shots:
        if u == s or u not in known:
            continue
        q = rec.shots[u].pose.get_origin()
        common = [k for k in set(tm.get_shot_observations(u)) & mine if k in rec.points]
        if not common:
            continue
        X = np.array([rec.points[k].coordinates for k in common])
        a, b = o - X, q - X
        ang = np.arccos(np.clip((a * b).sum(1) / np.linalg.norm(a, axis=1) / np.linalg.norm(b, axis=1), -1, 1))
        score = int(((ang > np.pi / 60) & (ang < np.pi / 6)).sum())
        if score > 20:
            out[u] = score
    return out


def datasets(chk, rng):
    import cv2
    from opensfm import dataset
    from opensfm.actions import compute_depthmaps, undistort

    rate = Rate()
    for n in range(chk.n(24, 320)):
        config = {"depthmap_method": ["PATCH_MATCH", "PATCH_MATCH_SAMPLE", "PATCH_MATCH_SAMPLE", "BRUTE_FORCE"][rng.integers(4)],
                  "depthmap_resolution": int(rng.choice([640, 60])), "depthmap_num_neighbors": int(rng.choice([10, 2, 3])), "depthmap_num_matching_views": int(rng.choice([6, 2])),
                  "depthmap_min_consistent_views": int(rng.choice([2, 3])), "depthmap_min_correlation_score": float(rng.choice([0.1, 0.5])),
                  "depthmap_same_depth_threshold": float(rng.choice([0.01, 0.03])), "undistorted_image_format": "png", "segmentation_ignore_values": [3],
                  "depthmap_save_debug_files": bool(rng.random() < 0.15), "processes": int(rng.choice([1, 2]))}
        if rng.random() < 0.2:
            config["depthmap_min_depth"], config["depthmap_max_depth"] = 5.0, 14.0
        if (n * chk.shards + chk.shard) % 12 == 5:
            config["depthmap_method"] = "UNKNOWN"
        model = str(rng.choice(["perspective", "perspective", "brown", "fisheye", "fisheye_opencv"]))
        what = dict(config, model=model)
        chk.case("dataset", what, sig=(chk.shard, n))
        root = os.path.join(chk.tmp, "dense%d" % n)
        world, S, data = make_dataset(chk, rng, root, config, model)
        ok, _ = chk.guard(lambda: undistort.run_dataset(data, output="undistorted", skip_images=False), "undistort", **what)
        if not ok:
            continue
        udata = dataset.UndistortedDataSet(data, os.path.join(root, "undistorted"))
        rec = udata.load_undistorted_reconstruction()[0]
        tm = udata.load_undistorted_tracks_manager()
        lost = None
        if (n * chk.shards + chk.shard) % 4 == 3:
            lost = sorted(rec.shots)[int(rng.integers(len(rec.shots)))]
            os.remove(os.path.join(root, "undistorted", "images", lost))
            chk.count("datasets with a failing image")
        ok, _ = chk.guard(lambda: compute_depthmaps.run_dataset(data, "undistorted", False), "compute depth maps", **what)
        if not ok:
            continue
        chk.count("datasets")
        merged = []
        raw, clean = {}, {}
        cams = {}
        chosen = {}
        for s in rec.shots:
            if udata.raw_depthmap_exists(s):
                raw[s] = udata.load_raw_depthmap(s)
            if udata.clean_depthmap_exists(s):
                clean[s] = udata.load_clean_depthmap(s)
        for s in rec.shots:
            ref = neighbors_ref(rec, tm, config["depthmap_num_neighbors"], s)
            chk.expect(bool(ref) or s not in raw, "a depth map is computed without neighbors", shot=s, **what)
            chk.expect((s in clean) == (s in raw), "a clean depth map without a raw one, or the reverse", shot=s, **what)
            chk.expect(udata.pruned_depthmap_exists(s) == (s in clean), "a pruned depth map without a clean one, or the reverse", shot=s, **what)
            if s not in raw:
                chk.expect(not ref or lost is not None or config["depthmap_method"] == "UNKNOWN", "a depth map is missing", shot=s, **what)
                continue
            chk.count("shots of datasets")
            got = list(raw[s][4])
            worth = sorted(ref.values(), reverse=True)[: config["depthmap_num_neighbors"]]
            chk.expect(sorted((ref.get(u, 0) for u in got), reverse=True) == worth and len(set(got)) == len(got), "neighbors of a depth map", got=got, ref=ref, **what)
            chosen[s] = [s] + got
            depth = raw[s][0]
            h, w = depth.shape
            shot = rec.shots[s]
            want_w = min(shot.camera.width, config["depthmap_resolution"])
            chk.expect((w, h) == (want_w, want_w * shot.camera.height // shot.camera.width), "size of a depth map", got=(w, h), **what)
            K = np.array([[shot.camera.focal * max(w, h), 0, w / 2], [0, shot.camera.focal * max(w, h), h / 2], [0, 0, 1]])
            cams[s] = View(K, shot.pose.get_rotation_matrix(), np.array(shot.pose.translation), w, h)
        for s in chosen:
            depth, plane, score, nghbr, _ = raw[s]
            v = cams[s]
            z = np.array([rec.shots[s].pose.transform(rec.points[k].coordinates)[2] for k in tm.get_shot_observations(s) if k in rec.points])
            hi = config.get("depthmap_max_depth") or np.percentile(z, 90) * 1.1
            chk.expect((depth <= hi * (1 + 1e-6)).all() and (depth >= 0).all(), "a depth beyond the range", got=float(depth.max()), limit=hi, **what)
            chk.expect((score[depth > 0] > config["depthmap_min_correlation_score"]).all(), "a depth with a bad score", **what)
            views_ = [u for u in chosen[s][: config["depthmap_num_matching_views"] + 1]]
            chk.expect((nghbr[depth > 0] < len(views_)).all() and (nghbr[depth > 0] > 0).all(), "a neighbor beyond the matching views", **what)
            used = set(np.unique(nghbr[depth > 0]))
            mask = udata.load_undistorted_combined_mask(s)
            mfile = os.path.join(root, "undistorted", "masks", s + ".png")
            lfile = os.path.join(root, "undistorted", "segmentations", s + ".png")
            out = np.zeros((rec.shots[s].camera.height, rec.shots[s].camera.width), bool)
            labels = np.zeros(out.shape, np.uint8)
            if os.path.exists(mfile):
                out |= cv2.imread(mfile, 0) == 0
            if os.path.exists(lfile):
                labels = cv2.imread(lfile, 0)
                out |= labels == 3
            out = cv2.resize(out.astype(np.uint8), (v.w, v.h), interpolation=cv2.INTER_NEAREST) > 0
            if config["depthmap_method"] != "BRUTE_FORCE":
                chk.expect((depth[out] == 0).all(), "a depth at a masked pixel", n=int((depth[out] > 0).sum()), **what)
            # cleaning
            known = [u for u in chosen[s] if u in raw and u in cams]
            CV, CD = [cams[u] for u in known], [raw[u][0].astype(np.float32) for u in known]
            judge_clean(chk, CV, CD, config["depthmap_same_depth_threshold"], config["depthmap_min_consistent_views"], clean[s][0], what)
            chk.expect(np.array_equal(clean[s][1], raw[s][1]) and np.array_equal(clean[s][2], raw[s][2]), "normals and scores of a cleaned depth map differ from the estimated ones", **what)
            known = [u for u in chosen[s] if u in clean and u in cams]
            CV, CD, CN = [cams[u] for u in known], [clean[u][0] for u in known], [clean[u][1].astype(float) for u in known]
            image = cv2.imread(os.path.join(root, "undistorted", "images", s))[..., ::-1]
            image = cv2.resize(np.ascontiguousarray(image), (v.w, v.h), interpolation=cv2.INTER_AREA)
            labels = cv2.resize(labels, (v.w, v.h), interpolation=cv2.INTER_NEAREST)
            out = udata.load_pruned_depthmap(s)
            judge_points(chk, CV, CD, CN, [image], [labels], config["depthmap_same_depth_threshold"], out, what)
            merged.append(out)
            if len(out[0]) > 30:
                X = np.asarray(out[0], float)
                d = world.distance(X) / np.median(z)
                share = (d < 0.03).mean()
                chk.extreme("share of points off the surface (%s)" % config["depthmap_method"], 1 - share)
                rate.add("points on the surface " + config["depthmap_method"], share > 0.65, 0.15)
        ok, cloud = chk.guard(lambda: udata.load_point_cloud(), "load the point cloud", **what)
        if ok:
            total = sum(len(m[0]) for m in merged)
            chk.count("points of merged clouds", total)
            chk.expect(len(cloud[0]) == total, "the merged cloud is not the union of the pruned ones", got=len(cloud[0]), want=total, **what)
            merged = [m for m in merged if len(m[0])]
            if total and len(cloud[0]) == total:
                for k, name in enumerate(("points", "normals", "colors", "labels")):
                    a = np.concatenate([np.asarray(m[k], float).reshape(len(m[0]), -1) for m in merged])
                    b = np.asarray(cloud[k], float).reshape(total, -1)
                    chk.expect(np.abs(a - b).max() < 2e-3, "%s of the merged cloud" % name, worst=float(np.abs(a - b).max()), **what)
        # a second run uses what is there
        if n % 5 == 0:
            before = {f: os.stat(os.path.join(root, "undistorted", "depthmaps", f)).st_mtime_ns for f in os.listdir(os.path.join(root, "undistorted", "depthmaps")) if f.endswith("npz")}
            chk.guard(lambda: compute_depthmaps.run_dataset(data, "undistorted", False), "compute depth maps again", **what)
            after = {f: os.stat(os.path.join(root, "undistorted", "depthmaps", f)).st_mtime_ns for f in os.listdir(os.path.join(root, "undistorted", "depthmaps")) if f.endswith("npz")}
            if lost is None and config["depthmap_method"] != "UNKNOWN":
                chk.expect(before == after, "a second run computes depth maps again", **what)
        import shutil

        shutil.rmtree(root)
    rate.judge(chk)


def choices(chk, rng):
    """The images that a depth map is computed from, and its range of depths."""
    from opensfm import dense, pygeometry, pymap, types
    from opensfm import config as settings

    for i in range(chk.n(400, 8000)):
        r = types.Reconstruction()
        r.add_camera(pygeometry.Camera.create_perspective(0.8, 0.0, 0.0))
        r.cameras  # noqa: B018
        cam = next(iter(r.cameras))
        n = int(rng.integers(2, 9))
        for k in range(n):
            a = float(np.radians(rng.choice([rng.uniform(0, 4), rng.uniform(0, 40), rng.uniform(0, 90)])))
            e = rng.normal(size=2)
            e *= np.sin(a) / np.linalg.norm(e)
            o = np.array([e[0], e[1], -np.cos(a)]) * rng.uniform(4, 7)
            R = gen.look_at(o, rng.normal(size=3) * 0.1)
            p = pygeometry.Pose()
            p.set_rotation_matrix(np.asarray(R))
            p.set_origin(o)
            r.create_shot("s%d" % k, cam, p)
        tm = pymap.TracksManager()
        for k in range(int(rng.integers(0, 240))):
            X = rng.normal(size=3) * float(rng.choice([0.1, 1.0]))
            if rng.random() < 0.9:
                r.create_point(str(k), X)
            for s in range(n):
                if rng.random() < 0.6:
                    tm.add_observation("s%d" % s, str(k), pymap.Observation(0.0, 0.0, 0.004, 0, 0, 0, k))
        if n > 3 and rng.random() < 0.3:
            r.remove_shot("s%d" % (n - 1))
        if "s0" not in tm.get_shot_ids():
            continue
        num = int(rng.integers(1, 8))
        chk.case("choice of images", {"images": n, "points": len(r.points), "neighbors": num}, sig=(chk.shard, "choice", i))
        ok, got = chk.guard(lambda: [v.id for v in dense.find_neighboring_images(r.shots["s0"], dense.common_tracks_double_dict(tm), r, num)], "choice of the images of a depth map")
        if ok:
            seen = set(tm.get_shot_observations("s0"))
            ref = {u: v for u, v in neighbors_ref(r, tm, num, "s0").items() if len(seen & set(tm.get_shot_observations(u))) >= 50}
            chk.count("images of depth maps chosen", len(ref))
            if chk.expect(got[:1] == ["s0"] and set(got[1:]) <= set(ref) and len(set(got)) == len(got) == 1 + min(num, len(ref)), "images of a depth map", got=got, want=ref, most=num):
                v = [ref[k] for k in got[1:]]
                left = [ref[k] for k in ref if k not in got]
                chk.expect(all(x >= y for x, y in zip(v, v[1:])) and (not v or not left or v[-1] >= max(left)), "order of the images of a depth map", got=got, want=ref)
        mine = [k for k in tm.get_shot_observations("s0") if k in r.points]
        if len(mine) < 2:
            continue
        c = settings.default_config()
        lo, hi = [(0, 0), (0.5, 0), (0, 9.0), (0.7, 8.0)][rng.integers(4)]
        c["depthmap_min_depth"], c["depthmap_max_depth"] = lo, hi
        ok, got = chk.guard(lambda: dense.compute_depth_range(tm, r, r.shots["s0"], c), "range of depths")
        if ok:
            pose = r.shots["s0"].pose
            z = sorted((pose.get_R_world_to_cam() @ r.points[k].coordinates + pose.translation)[2] for k in mine)
            q = lambda f: z[int(f * (len(z) - 1))] + (f * (len(z) - 1) % 1) * (z[min(len(z) - 1, int(f * (len(z) - 1)) + 1)] - z[int(f * (len(z) - 1))])
            chk.count("ranges of depths")
            chk.close(got, [lo or 0.9 * q(0.1), hi or 1.1 * q(0.9)], 1e-9, "range of depths")


def run(chk):
    choices(chk, chk.rng_for("choices"))
    estimation(chk, chk.rng_for("estimation"))
    cleaning(chk, chk.rng_for("cleaning"))
    coverage(chk, chk.rng_for("coverage"))
    datasets(chk, chk.rng_for("datasets"))
