"""C15: pair selection proposes exactly the configured neighbours."""
import os

import numpy as np

import dsgen

SHARDS = {"quick": 6, "thorough": 8}
REQUIRED = ["selections compared", "distance selections", "time selections", "order selections", "graph selections", "all-pairs selections",
            "vocabulary selections", "reorderings compared", "selections with missing positions", "selections with orientation"]
RULE = ("one case = one set of images (positions on lines, grids, clouds, on top of each other, missing; times; cameras; features) split into references "
        "and candidates, selected with random criteria and compared with brute force; non-trivial always")
ASSUMPTIONS = ["neighbours at equal distance (within a micrometre, a microsecond) may be chosen either way",
               "graph selection adds randomly jittered triangulations by design: only the edges of the exact triangulation are demanded of it",
               "selection with viewing directions uses a heuristic altitude: judged where directions are equal, elsewhere only for validity"]

A, B = 6378137.0, 6356752.314245


def ecef(lat, lon):
    la, lo = np.radians(lat), np.radians(lon)
    n = A * A / np.sqrt(A * A * np.cos(la) ** 2 + B * B * np.sin(la) ** 2)
    return np.array([n * np.cos(la) * np.cos(lo), n * np.cos(la) * np.sin(lo), n * B * B / A / A * np.sin(la)])


def images(rng, n):
    """exifs of n images."""
    style = str(rng.choice(["cloud", "line", "grid", "same place", "pairs", "far"]))
    lat0, lon0 = float(rng.uniform(-70, 70)), float(rng.uniform(-179, 179))
    m = 1e-5 * rng.choice([1, 10])  # about 1 to 10 metres
    if style == "cloud":
        p = rng.normal(size=(n, 2)) * 20 * m
    elif style == "line":
        p = np.stack([np.arange(n) * 5 * m, np.zeros(n)], 1)
    elif style == "grid":
        s = int(np.ceil(np.sqrt(n)))
        p = np.stack([np.arange(n) % s, np.arange(n) // s], 1) * 7 * m
    elif style == "same place":
        p = np.zeros((n, 2))
    elif style == "pairs":
        p = np.repeat(rng.normal(size=((n + 1) // 2, 2)), 2, axis=0)[:n] * 30 * m
    else:
        p = rng.normal(size=(n, 2)) * 0.5
    p = p[rng.permutation(n)]
    t0 = float(rng.choice([0.0, 1.6e9]))
    tstyle = str(rng.choice(["video", "random", "none", "bursts"]))
    t = {"video": t0 + np.arange(n) * 0.5, "random": t0 + rng.uniform(0, 1e4, n), "none": np.zeros(n), "bursts": t0 + np.repeat(np.arange(n), 3)[:n] * 60.0}[tstyle]
    t = t[rng.permutation(n)]
    stem = str(rng.choice(["im%03d.jpg", "%d.png", "ü %d.JPG", "b/%d"]))
    names = [stem % k for k in rng.permutation(3 * n)[:n]]
    return {im: {"gps": {"latitude": lat0 + float(p[k, 0]), "longitude": lon0 + float(p[k, 1]), "altitude": float(rng.uniform(0, 500)), "dop": 5.0},
                 "capture_time": float(t[k]), "camera": "cam%d" % rng.integers(2), "width": 10, "height": 10, "orientation": 1, "make": "", "model": "",
                 "projection_type": "perspective", "focal_ratio": 1.0, "skey": ""}
            for k, im in enumerate(names)}, style, tstyle


def split(rng, names):
    how = str(rng.choice(["same", "same", "subset", "disjoint", "overlap", "superset"]))
    names = [names[k] for k in rng.permutation(len(names))]
    a = int(rng.integers(1, len(names) + 1))
    if how == "same":
        return how, list(names), list(names)
    if how == "subset":
        return how, names[:a], list(names)
    if how == "superset":
        return how, list(names), names[:a]
    if how == "disjoint":
        return how, names[:a], names[a:]
    b = int(rng.integers(0, a + 1))
    return how, names[:a], names[b:]


def nearest(ref, cand, dist, k_max, limit, eps):
    """(must, may) unordered pairs: each reference with its k nearest candidates."""
    must, may = set(), set()
    k = min(len(cand), k_max) if k_max > 0 else len(cand)
    for r in ref:
        o = sorted((dist(r, c), c) for c in cand if c != r)
        kth = o[k - 1][0] if len(o) >= k and k > 0 else np.inf
        for d, c in o:
            if d <= kth + eps and d <= limit + eps:
                may.add(frozenset((r, c)))
            if (d < kth - eps or (np.isinf(kth))) and d < limit - eps:
                must.add(frozenset((r, c)))
            elif d < limit - eps and d <= kth + eps and sum(x <= kth + eps for x, _ in o) == k:
                must.add(frozenset((r, c)))
    return must, may


def delaunay_edges(P, tol=1e-4):
    """Edges of triangles whose circumcircle is clearly empty."""
    n = len(P)
    edges = set()
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                a, b, c = P[i], P[j], P[k]
                M = 2 * np.array([b - a, c - a])
                scale = max(np.linalg.norm(b - a), np.linalg.norm(c - a), np.linalg.norm(c - b))
                det = np.linalg.det(M)
                if scale < 1e-3 or abs(det) < 1e-3 * scale**2:
                    continue
                q = np.linalg.solve(M, [b @ b - a @ a, c @ c - a @ a])
                r = np.linalg.norm(q - a)
                d = np.linalg.norm(P - q, axis=1)
                d[[i, j, k]] = np.inf
                if np.all(d > r * (1 + tol) + 1e-9):
                    edges |= {(i, j), (i, k), (j, k)}
    return edges


def config(rng):
    c = {"matching_gps_distance": float(rng.choice([0, 0, 150, 30, 8, 1e6])), "matching_gps_neighbors": int(rng.choice([0, 0, 1, 2, 5, 50])),
         "matching_time_neighbors": int(rng.choice([0, 0, 1, 2, 4, 50])), "matching_order_neighbors": int(rng.choice([0, 0, 1, 2, 3, 6, 50])),
         "matching_graph_rounds": int(rng.choice([0, 0, 0, 1, 5])), "matching_bow_neighbors": 0, "matching_vlad_neighbors": 0}
    if rng.random() < 0.5:  # a single criterion
        keep = str(rng.choice(["matching_gps", "matching_time", "matching_order", "matching_graph", "none"]))
        for k in c:
            if not k.startswith(keep):
                c[k] = 0
        if keep == "matching_gps" and not c["matching_gps_distance"] and not c["matching_gps_neighbors"]:
            c["matching_gps_neighbors"] = int(rng.integers(1, 6))
        for k in ("time_neighbors", "order_neighbors", "graph_rounds"):
            if ("matching_" + k).startswith(keep) and not c["matching_" + k]:
                c["matching_" + k] = int(rng.integers(1, 6))
    return c


def expected(exifs, ref, cand, cfg, reference):
    """Per criterion: (must, may); None when it does not apply."""
    gps = all("latitude" in e.get("gps", {}) for e in exifs.values())
    X = {im: ecef(e["gps"]["latitude"], e["gps"]["longitude"]) for im, e in exifs.items() if "latitude" in e.get("gps", {})}
    out = {}
    d, k = (cfg["matching_gps_distance"], cfg["matching_gps_neighbors"]) if gps else (0, 0)
    if d or k:
        out["distance"] = nearest(ref, cand, lambda a, b: float(np.linalg.norm(X[a] - X[b])), k, d or np.inf, 1e-5)
    if cfg["matching_time_neighbors"]:
        out["time"] = nearest(ref, cand, lambda a, b: abs(exifs[a]["capture_time"] - exifs[b]["capture_time"]), cfg["matching_time_neighbors"], np.inf, 1e-6)
    if cfg["matching_order_neighbors"]:
        n = (cfg["matching_order_neighbors"] + 1) // 2
        r, c = sorted(ref), sorted(cand)
        pos = {im: i for i, im in enumerate(c)}
        must, may = set(), set()
        for i, im in enumerate(r):
            p = pos.get(im, i)
            for j, other in enumerate(c):
                if other != im and abs(p - j) <= n:
                    may.add(frozenset((im, other)))
                    if im in pos or abs(p - j) < n:
                        must.add(frozenset((im, other)))
        out["order"] = (must, may)
    if gps and cfg["matching_graph_rounds"]:
        both = {frozenset((a, b)) for a in ref for b in cand if a != b}
        must = set()
        if len(cand) >= 4:
            ims = sorted(set(ref) | set(cand))
            P = np.array([reference.to_topocentric(exifs[im]["gps"]["latitude"], exifs[im]["gps"]["longitude"], 0)[:2] for im in ims])
            must = {frozenset((ims[i], ims[j])) for i, j in delaunay_edges(P)} & both
            out["graph"] = (must, both)
        else:
            out["graph"] = (set(), set())
    return out, gps


def judge(chk, got, exp, ref, cand, exifs, report, what, all_pairs):
    pairs = [tuple(p) for p in got]
    u = [frozenset(p) for p in pairs]
    chk.count("selections compared")
    chk.expect(all(len(x) == 2 for x in u), what + ": an image is paired with itself")
    chk.expect(len(u) == len(set(u)), what + ": a pair is proposed twice")
    both = {frozenset((a, b)) for a in ref for b in cand if a != b}
    chk.expect(set(u) <= both, what + ": a pair is not between references and candidates", pairs=sorted(map(sorted, set(u) - both))[:3])
    chk.expect(all(a in ref for a, _ in pairs), what + ": the first image of a pair is no reference")
    if all_pairs:
        chk.count("all-pairs selections")
        chk.expect(set(u) == both, what + ": not all pairs although no criterion is enabled", missing=len(both - set(u)))
        return
    must = set().union(*[m for m, _ in exp.values()]) if exp else set()
    may = set().union(*[m for _, m in exp.values()]) if exp else set()
    chk.expect(must <= set(u), what + ": configured neighbours are missing", missing=sorted(map(sorted, must - set(u)))[:4],
               criteria={k: len(v[0]) for k, v in exp.items()})
    chk.expect(set(u) <= may, what + ": pairs that no criterion asks for", extra=sorted(map(sorted, set(u) - may))[:4],
               criteria={k: len(v[1]) for k, v in exp.items()})
    for k, (lo, hi) in exp.items():
        chk.count(k + " selections")
        if report is not None:
            chk.expect(len(lo) <= report["num_pairs_" + k] <= len(hi), what + ": reported number of pairs by " + k, got=report["num_pairs_" + k],
                       expected=(len(lo), len(hi)))
    if report is not None:
        chk.expect(all(report["num_pairs_" + k] == 0 for k in ("distance", "graph", "time", "order") if k not in exp), what + ": pairs reported for an "
                   "unused criterion", report=report, used=sorted(exp))


def metadata(chk, rng):
    from opensfm import pairs_selection

    data = dsgen.make_dataset(os.path.join(chk.tmp, "data"), ["x.jpg"])
    for i in range(chk.n(420, 9000)):
        n = int(rng.choice([1, 2, 3, 4, 5, 9, 16] + [40, 75] * (i % 4 == 0) + [300] * 6 * (i % 10 == 0)))
        exifs, style, tstyle = images(rng, n)
        how, ref, cand = split(rng, list(exifs))
        cfg = config(rng)
        if n > 16:  # enumerating its triangulation is too long
            cfg["matching_graph_rounds"] = 0
        missing = rng.random() < 0.15
        names = list(exifs)
        if missing:
            for im in names[: int(rng.integers(1, n + 1))]:
                exifs[im]["gps"] = {} if rng.random() < 0.5 else {"altitude": 3.0}
        gi = next((e["gps"] for e in exifs.values() if "latitude" in e["gps"]), {"latitude": 0.0, "longitude": 0.0})
        from opensfm import geo

        reference = geo.TopocentricConverter(gi["latitude"], gi["longitude"], 0)
        data.save_reference(reference)
        chk.case("selection", {"positions": style, "times": tstyle, "split": how, "config": {k: v for k, v in cfg.items() if v}, "images": n,
                               "missing positions": missing}, sig=(chk.shard, i))
        exp, gps = expected(exifs, ref, cand, cfg, reference)
        enabled = any(cfg[k] for k in ("matching_time_neighbors", "matching_order_neighbors")) or (
            gps and any(cfg[k] for k in ("matching_gps_distance", "matching_gps_neighbors", "matching_graph_rounds")))
        if missing:
            chk.count("selections with missing positions")
        results = []
        for rep in range(2):
            r, c = [ref[k] for k in rng.permutation(len(ref))], [cand[k] for k in rng.permutation(len(cand))]
            if how == "same" and rep == 0:
                c = r  # as the pipeline does
            ok, out = chk.guard(lambda: pairs_selection.match_candidates_from_metadata(r, c, exifs, data, cfg), "pair selection")
            if not ok:
                break
            judge(chk, out[0], exp, set(ref), set(cand), exifs, out[1], "selection", not enabled)
            results.append({frozenset(p) for p in out[0]})
        if len(results) == 2 and "graph" not in exp and all(lo == hi for lo, hi in exp.values()):
            chk.count("reorderings compared")
            chk.expect(results[0] == results[1], "the order of the images changes the selection", difference=len(results[0] ^ results[1]))
        # the criteria one by one
        if exp.get("distance"):
            ok, d = chk.guard(lambda: pairs_selection.match_candidates_by_distance(ref, cand, exifs, reference, cfg["matching_gps_neighbors"],
                                                                                 cfg["matching_gps_distance"]), "selection by distance")
            if ok:
                judge(chk, [p if p[0] in ref else p[::-1] for p in d], {"distance": exp["distance"]}, set(ref), set(cand), exifs, None, "by distance", False)
        if exp.get("time"):
            ok, d = chk.guard(lambda: pairs_selection.match_candidates_by_time(ref, cand, exifs, cfg["matching_time_neighbors"]), "selection by time")
            if ok:
                judge(chk, [p if p[0] in ref else p[::-1] for p in d], {"time": exp["time"]}, set(ref), set(cand), exifs, None, "by time", False)


def orientation(chk, rng):
    """Viewing directions move the representative points."""
    from opensfm import geo, pairs_selection

    for i in range(chk.n(90, 1500)):
        n = int(rng.choice([1, 2, 3, 6, 12]))
        exifs, style, _ = images(rng, n)
        same = bool(rng.random() < 0.6)
        base = [float(x) for x in (rng.uniform(-25, 25), rng.uniform(-25, 25), rng.uniform(-180, 180))] if rng.random() < 0.7 else [0.0, 0.0, 0.0]
        for e in exifs.values():
            o = base if same else [float(b + d) for b, d in zip(base, rng.normal(size=3) * 5)]
            e["opk"] = dict(zip(("omega", "phi", "kappa"), o), accuracy=1.0)
        missing = rng.random() < 0.3
        if missing:
            exifs[next(iter(exifs))]["gps"] = {}
        how, ref, cand = split(rng, list(exifs))
        k, d = int(rng.choice([0, 1, 3])), float(rng.choice([0, 30, 150]))
        if not k and not d:
            k = 2
        chk.case("orientation", {"images": n, "positions": style, "same": same, "missing": missing, "neighbors": k, "distance": d}, sig=(chk.shard, i))
        g = [e["gps"] for e in exifs.values() if e["gps"]]
        lat, lon = (g[0]["latitude"], g[0]["longitude"]) if g else (0.0, 0.0)
        chk.count("selections with orientation")
        reference = geo.TopocentricConverter(lat, lon, 0)
        ok, out = chk.guard(lambda: pairs_selection.match_candidates_by_distance(ref, cand, exifs, reference, k, d), "selection with viewing directions")
        if not ok:
            continue
        gone = {im for im in set(ref) | set(cand) if not exifs[im]["gps"]}
        exp = {"distance": (set(), {frozenset((a, b)) for a in ref for b in cand if a != b} if not gone else set())}
        if same and not gone:
            X = {im: ecef(e["gps"]["latitude"], e["gps"]["longitude"]) for im, e in exifs.items() if e["gps"]}
            if max([np.linalg.norm(X[a] - X[b]) for a in X for b in X] + [0]) < 5e3:
                exp["distance"] = nearest(ref, cand, lambda a, b: float(np.linalg.norm(X[a] - X[b])), k, d or np.inf, 1e-3)
        judge(chk, [p if p[0] in ref else p[::-1] for p in out], exp, set(ref), set(cand), exifs, None, "with viewing directions", False)


def aimed(chk, rng):
    """Images looking at one place, from wherever, all show it: they are close to each other."""
    from opensfm import geo, geometry, pairs_selection

    for i in range(chk.n(40, 600)):
        n = int(rng.choice([3, 4, 8, 15]))
        h = float(np.exp(rng.uniform(np.log(60), np.log(4000))))
        exifs, _, _ = images(rng, n)
        lat, lon = float(rng.uniform(-60, 60)), float(rng.uniform(-179, 179))
        reference = geo.TopocentricConverter(lat, lon, 0)
        xy = rng.uniform(-1, 1, (n, 2)) * h * rng.choice([0.1, 0.4])
        xy[0], xy[1] = [-0.1 * h, 0.05 * h], [0.1 * h, -0.02 * h]
        up = 1.0 if rng.random() < 0.3 else -1.0
        target = np.array([*rng.uniform(-0.1, 0.1, 2) * h, up * h])
        for k, e in enumerate(exifs.values()):
            la, lo, al = reference.to_lla(float(xy[k, 0]), float(xy[k, 1]), 0.0)
            e["gps"] = {"latitude": la, "longitude": lo, "altitude": float(rng.uniform(0, 100))}
            z = target - np.array([*xy[k], 0.0])
            z /= np.linalg.norm(z)
            x = np.cross(z, rng.normal(size=3))
            x /= np.linalg.norm(x)
            opk = geometry.opk_from_rotation(np.array([x, np.cross(z, x), z]))
            e["opk"] = dict(zip(("omega", "phi", "kappa"), (float(np.degrees(v)) for v in opk)), accuracy=1.0)
        how, ref, cand = split(rng, list(exifs))
        chk.case("aimed", {"images": n, "height": h, "up": up > 0}, sig=(chk.shard, i))
        # directions are given for one metre up or down, of which only the height above or below is chosen
        ok, out = chk.guard(lambda: pairs_selection.match_candidates_by_distance(ref, cand, exifs, reference, 0, 0.02 * h), "selection of images looking at one place")
        if ok:
            want = {frozenset((a, b)) for a in ref for b in cand if a != b}
            chk.expect({frozenset(p) for p in out} == want, "images looking at the same place are not selected together", got=len(out), of=len(want), height=h, up=up > 0)
            chk.count("selections of one place")
        ok, pts = chk.guard(lambda: pairs_selection.get_representative_points(list(exifs), exifs, reference), "representative points")
        if ok:
            worst = max(np.linalg.norm(np.asarray(v) - target) for v in pts.values())
            chk.expect(worst < 0.02 * h, "the representative points are not the place the images look at", off=worst, height=h, up=up > 0)


def unreferenced(chk, rng):
    """Selection in a dataset which has no reference yet."""
    from opensfm import dataset, pairs_selection

    for i in range(chk.n(12, 120)):
        n = int(rng.choice([2, 4, 9]))
        exifs, style, _ = images(rng, n)
        if style == "far":
            continue
        exifs = {"%d.jpg" % k: e for k, e in enumerate(exifs.values())}
        root = os.path.join(chk.tmp, "u%d" % i)
        data = dsgen.make_dataset(root, list(exifs), {"matching_gps_distance": 0})
        for im, e in exifs.items():
            data.save_exif(im, e)
        cfg = config(rng)
        how, ref, cand = split(rng, list(exifs))
        chk.case("no reference", {"images": n, "config": {k: v for k, v in cfg.items() if v}}, sig=(chk.shard, i))
        ok, one = chk.guard(lambda: pairs_selection.match_candidates_from_metadata(ref, cand, exifs, data, cfg), "pair selection without a reference")
        if not ok:
            continue
        chk.expect(data.reference_exists(), "selection leaves the dataset without a reference")
        ok, two = chk.guard(lambda: pairs_selection.match_candidates_from_metadata(ref, cand, exifs, dataset.DataSet(root), cfg), "pair selection with the reference just made")
        chk.expect(not ok or {frozenset(p) for p in one[0]} == {frozenset(p) for p in two[0]} or cfg["matching_graph_rounds"], "selection differs once the reference is stored")
        chk.count("selections without a reference")


# ------------------------------------------------------------ vocabulary
def vocabulary(chk, rng):
    from opensfm import dataset, feature_loader, features, geo, pairs_selection, vlad

    for i in range(chk.n(30, 420)):
        root = os.path.join(chk.tmp, "v%d" % i)
        n = int(rng.integers(2, 9))
        exifs, style, _ = images(rng, n)
        exifs = {"%d.jpg" % k: e for k, e in enumerate(exifs.values())}
        kind = ["vlad", "bow"][i % 2]
        N = int(rng.integers(1, 4))
        cfg = {"matching_gps_distance": 0, "matching_gps_neighbors": 0, "matching_time_neighbors": 0, "matching_order_neighbors": 0,
               "matching_graph_rounds": 0, "matching_bow_neighbors": 0, "matching_vlad_neighbors": 0}
        cfg["matching_%s_neighbors" % kind] = N
        pre_d, pre_n = float(rng.choice([0, 0, 40])), int(rng.choice([0, 0, 3]))
        cfg["matching_%s_gps_distance" % kind], cfg["matching_%s_gps_neighbors" % kind] = pre_d, pre_n
        other = cfg["matching_%s_other_cameras" % kind] = bool(rng.random() < 0.4)
        missing = rng.random() < 0.2
        if missing:
            exifs["0.jpg"]["gps"] = {}
        conf = {"processes": int(rng.choice([1, 2]))}
        freq = rng.integers(1, 50, 30).astype(float)
        if kind == "bow":
            W = rng.normal(size=(30, 16)).astype(np.float32)
            os.makedirs(root, exist_ok=True)
            np.savez(os.path.join(root, "bow.npz"), words=W, frequencies=freq)
            conf["bow_file"] = os.path.join(root, "bow.npz")
        data = dsgen.make_dataset(root, list(exifs), conf)
        base = rng.normal(size=(3, 40, 128)).astype(np.float32) * 40 + 60
        H = {}
        words64, _ = None, None
        for k, im in enumerate(exifs):
            data.save_exif(im, exifs[im])
            m = int(rng.choice([12, 30, 40])) if rng.random() < 0.85 else int(rng.choice([1, 5]))
            desc = (base[k % 3][:m] + 10 * rng.normal(size=(m, 128))).astype(np.float32)
            pts = np.concatenate([rng.uniform(-0.3, 0.3, (m, 2)), np.full((m, 2), 0.01)], 1)
            data.save_features(im, features.FeaturesData(pts, desc, np.zeros((m, 3)), None))
            if kind == "bow":
                w = rng.integers(0, 30, (m, 3)).astype(np.int32)
                w[:, 0] = np.where(rng.random(m) < 0.6, (7 * (k % 3) + np.arange(m) % 6) % 30, w[:, 0])
                data.save_words(im, w)
                if m > 8:
                    h = np.bincount(w[:, 0], minlength=30) * np.log(freq.sum() / freq)
                    H[im] = h / h.sum()
            else:
                c = vlad.instance.load_words(data)
                d = data.load_features(im).descriptors.astype(float)
                near = ((d[:, None] - c[None].astype(float)) ** 2).sum(2).argmin(1)
                v = np.zeros(c.shape)
                for r, j in zip(d, near):
                    v[j] += r - c[j]
                v = v.ravel()
                v = np.sign(v) * np.sqrt(np.abs(v))
                H[im] = v / np.linalg.norm(v)
        data = dataset.DataSet(root)
        g = [e["gps"] for e in exifs.values() if e["gps"]]
        reference = geo.TopocentricConverter(g[0]["latitude"] if g else 0, g[0]["longitude"] if g else 0, 0)
        data.save_reference(reference)
        how, ref, cand = split(rng, list(exifs))
        feature_loader.instance.clear_cache()
        vlad.instance.clear_cache()
        chk.case("vocabulary", {"kind": kind, "images": n, "neighbors": N, "other cameras": other, "preempt": (pre_d, pre_n), "split": how,
                                "missing": missing, "positions": style}, sig=(chk.shard, i))
        dist = (lambda a, b: float(np.abs(H[a] - H[b]).sum())) if kind == "bow" else (lambda a, b: float(np.linalg.norm(H[a] - H[b])))
        # candidates of each image after the preemption
        allowed = {r: [set(c for c in cand if c != r)] * 2 for r in ref}
        gone = any(not exifs[im]["gps"] for im in set(ref) | set(cand))
        if (pre_d or pre_n) and gone:
            if kind == "bow":
                allowed = {r: [set(), set()] for r in ref}
        elif pre_d or pre_n:
            X = {im: ecef(e["gps"]["latitude"], e["gps"]["longitude"]) for im, e in exifs.items() if e["gps"]}
            lo, hi = nearest(ref, cand, lambda a, b: float(np.linalg.norm(X[a] - X[b])), pre_n, pre_d or np.inf, 1e-5)
            allowed = {r: [{c for p in s if r in p for c in p if c != r} for s in (lo, hi)] for r in ref}
            if kind == "vlad" and not hi:
                allowed = {r: [set(c for c in cand if c != r)] * 2 for r in ref}
        must, may = set(), set()
        unsure = any(a != b for a, b in allowed.values())
        for r in ref:
            if r not in H:
                continue
            have = [c for c in allowed[r][1] if c in H]
            groups = [have]
            if other:
                groups = [[c for c in have if exifs[c]["camera"] == exifs[r]["camera"]], [c for c in have if exifs[c]["camera"] != exifs[r]["camera"]]]
            for grp in groups:
                a, b = nearest([r], grp, dist, N, np.inf, 1e-4)
                may |= b if not unsure else {frozenset((r, c)) for c in grp}
                must |= a if not unsure else set()
        ok, out = chk.guard(lambda: pairs_selection.match_candidates_from_metadata(list(ref), list(cand), exifs, data, cfg), "vocabulary selection")
        if not ok:
            continue
        chk.count("vocabulary selections")
        u = {frozenset(p) for p in out[0]}
        chk.expect(len(u) == len(out[0]) and all(len(p) == 2 for p in u), "vocabulary selection: repeated or degenerate pairs")
        chk.expect(all(p[0] in ref for p in out[0]), "vocabulary selection: the first image of a pair is no reference")
        chk.expect(must <= u, "vocabulary selection: most similar images are missing", missing=sorted(map(sorted, must - u))[:4], got=len(u))
        chk.expect(u <= may, "vocabulary selection: pairs not among the most similar", extra=sorted(map(sorted, u - may))[:4])
        chk.expect(out[1]["num_pairs_" + kind] == len(u), "vocabulary selection: reported number of pairs", got=out[1])


def run(chk):
    rng = chk.rng_for("c15")
    metadata(chk, rng)
    orientation(chk, rng)
    aimed(chk, rng)
    unreferenced(chk, rng)
    vocabulary(chk, rng)
