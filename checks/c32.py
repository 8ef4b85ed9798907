"""C32: the mesh of an image triangulates what the image sees."""
import json
import os

import numpy as np

import gen
import scenes

SHARDS = {"quick": 6, "thorough": 8}
TARGETS = ["pygeometry", "pymap"]
REQUIRED = ["meshes", "perspective meshes", "fisheye meshes", "spherical meshes", "directions looked along", "triangles", "meshes without points", "points out of the picture", "stored meshes", "meshed reconstructions"]
RULE = ("one case = one image of a reconstruction with its camera model and reconstructed points (none, few, many, outside the picture, behind the camera, in one direction), or one data set "
        "for which the step is run; the triangles are looked at along many directions; non-trivial always")
ASSUMPTIONS = ["points of perspective images behind the camera are not tried", "directions within 1e-6 of an edge may belong to either triangle"]
FLAT = ("perspective", "brown", "radial", "simple_radial")
ROUND = ("fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "dual")


def hits(V, F, D):
    """How many triangles each ray from the origin meets; which rays pass close to an edge."""
    a, b, c = (V[F[:, k]] for k in range(3))
    n = np.zeros(len(D), int)
    near = np.zeros(len(D), bool)
    det = np.einsum("ij,ij->i", a, np.cross(b, c))
    for k, d in enumerate(D):
        # d = x a + y b + z c with non-negative x, y, z
        x = np.einsum("j,ij->i", d, np.cross(b, c))
        y = np.einsum("j,ij->i", d, np.cross(c, a))
        z = np.einsum("j,ij->i", d, np.cross(a, b))
        with np.errstate(all="ignore"):
            w = np.stack([x, y, z], 1) / det[:, None]
            w = w / np.abs(w).sum(axis=1, keepdims=True)
        low = np.min(w, axis=1)
        flat = ~np.isfinite(low)
        n[k] = np.count_nonzero(low[~flat] > 0)
        near[k] = np.any(np.abs(low[~flat]) < 1e-6)
    return n, near


def inside(P, F, Q):
    """How many triangles of the plane cover each point."""
    n = np.zeros(len(Q), int)
    near = np.zeros(len(Q), bool)
    a, b, c = (P[F[:, k]] for k in range(3))
    cr = lambda u, v: u[..., 0] * v[..., 1] - u[..., 1] * v[..., 0]  # noqa: E731
    for k, q in enumerate(Q):
        s = np.stack([cr(b - a, q - a), cr(c - b, q - b), cr(a - c, q - c)], 1)
        area = np.abs(cr(b - a, c - a))
        low = np.min(s * np.sign(cr(b - a, c - a))[:, None], axis=1)
        n[k] = np.count_nonzero(low > 0)
        near[k] = np.any(np.abs(low) < 1e-7 * np.maximum(area, 1e-3))
    return n, near


def same_points(chk, got, want, what, **data):
    """As sets: every point once."""
    chk.expect(len(got) == len(want), what + ": number of points", got=len(got), expected=len(want), **data)
    key = lambda P: sorted(tuple(float(v) for v in p) for p in P)  # noqa: E731
    a, b = key(got), key(want)
    chk.expect(len(a) != len(b) or all(np.allclose(x, y, rtol=0, atol=1e-12) for x, y in zip(a, b)), what + ": not the points the image sees", **data)


def judge(chk, rng, p, R, t, vertices, faces, seen, doubtful, what):
    """seen, doubtful: coordinates of the points which are, or may be, part of the mesh."""
    V, F = np.array(vertices, float).reshape(-1, 3), np.array(faces, int).reshape(-1, 3)
    model = p["model"]
    kind = "flat" if model in FLAT else "round" if model in ROUND else "full"
    info = {"model": model, "points": len(seen)}
    if not chk.expect(len(V) and len(F) and np.isfinite(V).all(), what + ": no mesh, or a vertex which is not finite", **info):
        return
    if not chk.expect(F.min() >= 0 and F.max() < len(V) and all(len(set(f)) == 3 for f in F.tolist()), what + ": triangles of vertices which do not exist", **info):
        return
    chk.count("triangles", len(F))
    chk.expect(len({tuple(sorted(f)) for f in F.tolist()}) == len(F), what + ": a triangle is repeated", **info)
    Y = V @ R.T + t
    border = {"flat": 4, "round": 21, "full": 8}[kind]
    if not chk.expect(len(V) >= border, what + ": the border is missing", **info):
        return
    if len(doubtful):
        rest = [v for v in V[border:] if not np.any(np.all(np.abs(doubtful - v) < 1e-12, axis=1))]
    else:
        rest = list(V[border:])
    same_points(chk, rest, seen, what, **info)
    if kind == "flat":
        f, w, h = p["focal"], p["width"], p["height"]
        m = max(w, h)
        ar, cx, cy = p.get("aspect_ratio", 1.0), p.get("cx", 0.0), p.get("cy", 0.0)
        corners = np.array([[-w, -h], [-w, h], [w, h], [w, -h]]) / 2.0 / m
        P = np.concatenate([corners, gen.reference_project(p, Y[4:])]) if len(Y) > 4 else corners
        rays = np.stack([(corners[:, 0] - cx) / f, (corners[:, 1] - cy) / f / ar, np.ones(4)], 1)
        for k in range(4):
            want = rays[k] * Y[k, 2]
            chk.expect(np.linalg.norm(Y[k] - want) < 1e-8 * max(1, np.linalg.norm(want)), what + ": a corner is not on the ray of the corner of the picture", corner=k, **info)
            around = [j for tri in F.tolist() if k in tri for j in tri if j >= 4]
            want = np.mean(Y[around, 2]) if around else 50.0
            chk.expect(abs(Y[k, 2] - want) < 1e-8 * abs(want), what + ": the depth of a corner is not the average around it", corner=k, got=Y[k, 2], expected=want, **info)
        Q = rng.uniform(-0.5, 0.5, (40, 2)) * [w / m, h / m]
        n, near = inside(P, F, Q)
        chk.expect(np.all((n == 1) | near), what + ": the picture is not covered once", covered=n[~near].tolist(), **info)
        a, b, c = (P[F[:, k]] for k in range(3))
        area = 0.5 * np.abs((b - a)[:, 0] * (c - a)[:, 1] - (b - a)[:, 1] * (c - a)[:, 0])
        chk.expect(abs(area.sum() - w * h / m / m) < 1e-9, what + ": the triangles do not fill the picture", area=area.sum(), picture=w * h / m / m, **info)
        # no other vertex within the circle through the corners of a triangle
        sel = rng.permutation(len(F))[:30]
        for k in sel:
            if area[k] < 1e-7:
                continue
            A = 2 * np.array([b[k] - a[k], c[k] - a[k]])
            o = np.linalg.solve(A, [b[k] @ b[k] - a[k] @ a[k], c[k] @ c[k] - a[k] @ a[k]])
            r = np.linalg.norm(o - a[k])
            others = np.delete(P, F[k], axis=0)
            chk.expect(len(others) == 0 or np.linalg.norm(others - o, axis=1).min() > r - 1e-6 * max(1, r), what + ": not a Delaunay triangulation", **info)
    else:
        r = np.linalg.norm(Y, axis=1)
        B = Y / r[:, None]
        if kind == "round":
            ang = 2 * np.pi * np.arange(20) / 20
            ring = np.concatenate([30 * np.stack([np.cos(ang), np.sin(ang), 0 * ang], 1), [[0, 0, 30.0]]])
            chk.expect(np.allclose(Y[:21], ring, atol=1e-9), what + ": the border is not the circle around the camera", off=np.abs(Y[:21] - ring).max(), **info)
            B[20] *= 0.3
            D = rng.normal(size=(60, 3))
            D[:, 2] = np.abs(D[:, 2]) + 0.05 * np.linalg.norm(D, axis=1)
            chk.expect(not np.any(np.all(F < 20, axis=1)), what + ": a triangle of the border alone", **info)
        else:
            cube = {tuple(np.sign(np.round(v, 6)).astype(int)) for v in Y[:8]}
            chk.expect(len(cube) == 8 and np.allclose(np.linalg.norm(Y[:8], axis=1), 0.3, atol=1e-9) and np.allclose(np.abs(B[:8]), 3 ** -0.5, atol=1e-9),
                       what + ": the border is not a cube around the camera", **info)
            B[:8] *= 0.3
            D = rng.normal(size=(60, 3))
        n, near = hits(B, F, D / np.linalg.norm(D, axis=1)[:, None])
        chk.count("directions looked along", len(D))
        chk.expect(np.all((n == 1) | near), what + ": a direction is covered not once", covered=sorted(set(n[~near].tolist())), **info)
        # all directions to points lie on the sphere: none may be left out
        used = set(F.ravel().tolist())
        U = B[border:]
        lone = [k for k in range(len(U)) if border + k not in used and np.sort(np.linalg.norm(U - U[k], axis=1))[1:2].min(initial=9) > 0.01]
        chk.expect(not lone, what + ": points are not part of any triangle", count=len(lone), **info)



def alike(a, b):
    """Equal up to the rounding of numbers."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, float):
        return isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


def single(chk, rng):
    from opensfm import mesh

    models = FLAT + ROUND + ("spherical", "spherical")
    for i in range(chk.n(220, 4000)):
        model = models[(i * chk.shards + chk.shard) % len(models)]
        layout = "inside" if model == "spherical" else str(rng.choice(["ring", "line", "nadir"]))
        n = int(rng.choice([0, 1, 2, 3, 5, 20, 80, 250]))
        S = scenes.make(rng, (model,), shots=2, points=max(n, 1), layout=layout, strength=float(rng.choice([0.0, 0.5])))
        s = list(S.shots)[int(rng.integers(2))]
        d, p = S.shots[s], S.cams[S.shots[s]["cam"]]
        rec = S.reconstruction(points=False)
        style = str(rng.choice(["seen", "seen", "outside", "close", "behind"]))
        X = S.X[:n].copy()
        if style == "close" and n:  # a tight bunch
            X = X[0] + 0.05 * rng.normal(size=(n, 3))
        if style == "behind" and model not in FLAT and n:
            Y = rng.normal(size=(n, 3))
            X = (Y * rng.uniform(1, 9, (n, 1)) - d["t"]) @ d["R"]
        if model in FLAT:
            Y = X @ d["R"].T + d["t"]
            X = X[Y[:, 2] > 0.1]
        for k, x in enumerate(X):
            rec.create_point(str(k), x)
        # observations: of reconstructed points, of points which are not, and of points out of the picture
        S.X = X
        S.colors = np.zeros((len(X), 3), int)
        watch = [k for k in range(len(X)) if rng.random() < 0.85]
        S.obs = {o: {k: np.array([0.0, 0.0]) for k in (watch if o == s else range(len(X)))} for o in S.shots}
        tm = S.tracks_manager(1)
        o = S.observation(s, watch[0]) if watch else None
        if o is not None:
            for k in range(3):
                tm.add_observation(s, "unknown%d" % k, o)
        X = X[watch] if len(watch) else X[:0]
        doubtful = X[:0]
        if model in FLAT and len(X):
            xy = gen.reference_project(p, X @ d["R"].T + d["t"])
            m = max(p["width"], p["height"])
            gap = np.minimum(0.5 * p["width"] / m - np.abs(xy[:, 0]), 0.5 * p["height"] / m - np.abs(xy[:, 1]))
            chk.count("points out of the picture", np.count_nonzero(gap < 0))
            doubtful = X[np.abs(gap) < 1e-9]
            X = X[gap > 1e-9]
        chk.case("image", {"model": model, "points": len(X), "style": style, "layout": layout}, sig=(chk.shard, i))
        if s not in tm.get_shot_ids():
            ok, out = chk.guard(lambda: mesh.triangle_mesh(s, rec, tm), "mesh of an image without tracks")
            chk.expect(not ok or (len(out[0]) == 0 and len(out[1]) == 0), "an image without tracks has a mesh")
            continue
        ok, out = chk.guard(lambda: mesh.triangle_mesh(s, rec, tm), "mesh of an image", model=model, points=len(X))
        if not ok:
            continue
        chk.count("meshes")
        chk.count("%s meshes" % ("perspective" if model in FLAT else "fisheye" if model in ROUND else "spherical"))
        if len(X) == 0:
            chk.count("meshes without points")
        judge(chk, rng, p, d["R"], d["t"], out[0], out[1], X, doubtful, "mesh")
        ok, out = chk.guard(lambda: mesh.triangle_mesh("no such image", rec, tm), "mesh of an unknown image")
        chk.expect(not ok or (len(out[0]) == 0 and len(out[1]) == 0), "an unknown image has a mesh")


def step(chk, rng):
    from opensfm import dataset
    from opensfm.actions import mesh as action

    for i in range(chk.n(14, 160)):
        root = os.path.join(chk.tmp, "d%d" % i)
        models = [str(m) for m in rng.choice(FLAT + ROUND + ("spherical",), 3, replace=False)]
        parts = []
        S = None
        for part in range(int(rng.choice([1, 2]))):
            Q = scenes.make(rng, models, shots=5, points=60, layout="inside" if "spherical" in models else None, strength=0.3, names="p%d_%%02d.jpg" % part)
            Q.cams = {"%d%s" % (part, c): p for c, p in Q.cams.items()}
            Q._limit = {}
            for d in Q.shots.values():
                d["cam"] = "%d%s" % (part, d["cam"])
            parts.append(Q)
            S = S or Q
        data = S.dataset(root)
        from opensfm import pymap

        tm = pymap.TracksManager()
        recs, left = [], set()
        for part, Q in enumerate(parts):
            rec = Q.reconstruction(points=False, observations=False)
            used = Q.seen()
            for k, ss in used.items():
                if len(ss) < 2:
                    continue
                rec.create_point("%d_%d" % (part, k), Q.X[k])
                for s in ss:
                    tm.add_observation(s, "%d_%d" % (part, k), Q.observation(s, k))
            recs.append(rec)
            left |= set(Q.shots) - set(tm.get_shot_ids())
        data.save_reconstruction(recs)
        data.save_tracks_manager(tm)
        before = open(os.path.join(root, "reconstruction.json")).read()
        chk.case("step", {"models": models, "parts": len(parts)}, sig=(chk.shard, i))
        ok, _ = chk.guard(lambda: action.run_dataset(dataset.DataSet(root)), "meshing a data set", models=models)
        if not ok:
            continue
        chk.expect(open(os.path.join(root, "reconstruction.json")).read() == before, "meshing changes the reconstruction")
        with open(os.path.join(root, "reconstruction.meshed.json")) as f:
            text = f.read()
        new = json.loads(text)
        old = json.loads(before)
        chk.expect(len(new) == len(old), "a reconstruction is missing among the meshed ones")
        chk.count("meshed reconstructions", len(new))
        for Q, a, b in zip(parts, old, new):
            tracks = {s: [] for s in Q.shots}
            for k, ss in Q.seen().items():
                if len(ss) >= 2:
                    for s in ss:
                        tracks[s].append(k)
            for s in a["shots"]:
                v, f = b["shots"][s].pop("vertices", []), b["shots"][s].pop("faces", [])
                a["shots"][s].pop("vertices", None), a["shots"][s].pop("faces", None)
                if not tracks[s]:
                    chk.expect(not v and not f, "an image without tracks has a mesh")
                    continue
                d, p = Q.shots[s], Q.cams[Q.shots[s]["cam"]]
                X = Q.X[sorted(tracks[s])]
                doubtful = X[:0]
                if p["model"] in FLAT:
                    xy = gen.reference_project(p, X @ d["R"].T + d["t"])
                    m = max(p["width"], p["height"])
                    gap = np.minimum(0.5 * p["width"] / m - np.abs(xy[:, 0]), 0.5 * p["height"] / m - np.abs(xy[:, 1]))
                    doubtful, X = X[np.abs(gap) < 1e-9], X[gap > 1e-9]
                chk.count("stored meshes")
                judge(chk, rng, p, d["R"], d["t"], v, f, X, doubtful, "stored mesh")
            chk.expect(alike(a, b), "the meshed reconstruction differs in more than the meshes", keys=[k for k in a if not alike(a[k], b.get(k))])
        ok, back = chk.guard(lambda: dataset.DataSet(root).load_reconstruction("reconstruction.meshed.json"), "loading a meshed reconstruction")
        if ok:
            for rec, b in zip(back, json.loads(text)):
                for s, shot in rec.shots.items():
                    chk.expect([list(x) for x in shot.mesh.vertices] == b["shots"][s].get("vertices", []) and [list(x) for x in shot.mesh.faces] == b["shots"][s].get("faces", []),
                               "a loaded mesh is not the stored one")


def run(chk):
    rng = chk.rng_for("c32")
    single(chk, rng)
    step(chk, rng)
