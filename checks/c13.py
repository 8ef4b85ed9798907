"""C13: tracks built from matches are exactly the consistent connected components."""
import json
import os

import numpy as np

import dsgen

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pymap"]
REQUIRED = ["match graphs", "tracks compared", "components too short", "components with two features of one image", "observations compared",
            "orderings compared", "datasets run", "depth priors compared", "pair queries", "featureless images"]
RULE = ("one case = one set of features and matches (planted tracks, joined tracks, cycles, repeated and reversed matches, chains, noise) turned "
        "into tracks in several match orders and compared with components found by flood fill; non-trivial always")
ASSUMPTIONS = ["track names carry no meaning, only the partition does",
               "an image whose features are missing contributes no observation; what its matches link is not prescribed beyond the track rules"]


def components(edges):
    """Flood fill, written without the union-find of the library."""
    near = {}
    for a, b in edges:
        near.setdefault(a, set()).add(b)
        near.setdefault(b, set()).add(a)
    seen, out = set(), []
    for s in near:
        if s in seen:
            continue
        comp, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x in comp:
                continue
            comp.add(x)
            todo.extend(near[x] - comp)
        seen |= comp
        out.append(frozenset(comp))
    return out


def scene(rng, big=False):
    n = int(rng.integers(1, 9 if not big else 30))
    stem = rng.choice(["im%d.jpg", "%d", "ü %d.png", "dir/%d.jpg"])
    images = [stem % k for k in rng.permutation(n * 3)[:n]]
    counts = {im: int(rng.integers(0, 40 if not big else 300)) for im in images}
    style = rng.choice(["planted", "random", "chains", "dense"])
    edges = []
    if style == "random" or style == "dense":
        for _ in range(int(rng.integers(0, 200)) * (3 if style == "dense" else 1)):
            a, b = images[rng.integers(n)], images[rng.integers(n)]
            if a != b and counts[a] and counts[b]:
                edges.append(((a, int(rng.integers(counts[a]))), (b, int(rng.integers(counts[b])))))
    else:
        free = {im: list(rng.permutation(counts[im])) for im in images}
        tracks = []
        for _ in range(int(rng.integers(0, 60))):
            t = [(im, int(free[im].pop())) for im in images if free[im] and rng.random() < 0.5]
            tracks.append(t)
            if style == "chains":
                links = [(t[k], t[k + 1]) for k in range(len(t) - 1)]
            else:
                links = [(t[i], t[j]) for i in range(len(t)) for j in range(i) if rng.random() < 0.6]
            edges += links
        for _ in range(int(rng.integers(0, 5))):  # wrong matches joining tracks
            if len(tracks) > 1:
                a, b = (tracks[k] for k in rng.choice(len(tracks), 2, replace=False))
                if a and b:
                    x, y = a[rng.integers(len(a))], b[rng.integers(len(b))]
                    if x[0] != y[0]:
                        edges.append((x, y))
    if edges and rng.random() < 0.4:  # repeated
        edges += [edges[k] for k in rng.integers(0, len(edges), 3)]
    return images, counts, edges


def as_matches(rng, edges, kind):
    """The dictionary create_tracks_manager takes, in a random order."""
    m = {}
    for k in rng.permutation(len(edges)):
        a, b = edges[k]
        if rng.random() < 0.5 and kind != "one way":
            a, b = b, a
        m.setdefault((a[0], b[0]), []).append((a[1], b[1]))
        if kind == "both ways" and rng.random() < 0.3:
            m.setdefault((b[0], a[0]), []).append((b[1], a[1]))
    keys = list(m)
    return {keys[k]: m[keys[k]] for k in rng.permutation(len(keys))}


def content(tm):
    """Partition of observations, and each observation's data."""
    tracks, data = [], {}
    for t in tm.get_track_ids():
        obs = tm.get_track_observations(t)
        tracks.append(frozenset((im, int(o.id)) for im, o in obs.items()))
        for im, o in obs.items():
            d = o.depth_prior
            data[im, int(o.id)] = (np.array(o.point), float(o.scale), tuple(int(c) for c in o.color), int(o.segmentation), int(o.instance),
                                   None if d is None else (d.value, d.std_deviation, bool(d.is_radial)))
    return tracks, data


def graphs(chk, rng):
    from opensfm import pymap, tracking

    NO = pymap.Observation.NO_SEMANTIC_VALUE
    for i in range(chk.n(320, 6000)):
        images, counts, edges = scene(rng, big=i % 16 == 5)
        min_length = int(rng.choice([1, 2, 2, 2, 3, 4, 6]))
        dt = rng.choice([np.float32, np.float64])
        features = {im: rng.normal(size=(c, 3)).astype(dt) for im, c in counts.items()}
        for im in features:
            features[im][:, 2] = np.abs(features[im][:, 2])
        colors = {im: rng.integers(0, 256, (c, 3)).astype(rng.choice([np.uint8, np.float32, np.float64, np.int32])) for im, c in counts.items()}
        seg = {im: rng.integers(0, 200, c).astype(rng.choice([np.uint8, np.int32])) for im, c in counts.items() if rng.random() < 0.5}
        inst = {im: rng.integers(0, 3000, c).astype(np.int16) for im, c in counts.items() if im in seg and rng.random() < 0.6}
        depths = {}
        if rng.random() < 0.5:
            for im, c in counts.items():
                if rng.random() < 0.7:
                    d = 10.0 ** rng.uniform(-1, 2, c)
                    d[rng.random(c) < 0.2] = rng.choice([np.nan, np.inf])
                    depths[im] = d.astype(rng.choice([np.float32, np.float64]))
        radial, std = bool(rng.random() < 0.5), float(rng.choice([1.0, 0.3, 2.5]))
        missing = set()
        if images and rng.random() < 0.2:
            missing = {images[rng.integers(len(images))]}
        feats = {im: f for im, f in features.items() if im not in missing}
        kind = rng.choice(["one way", "random", "both ways"])
        chk.case("tracks", {"images": len(images), "edges": len(edges), "min_length": min_length, "depths": bool(depths),
                            "missing": len(missing), "directions": str(kind)}, sig=(chk.shard, i))
        chk.count("match graphs")
        comps = components(edges)
        good = [c for c in comps if len(c) >= min_length and len({im for im, _ in c}) == len(c)]
        chk.count("components too short", sum(len(c) < min_length for c in comps))
        chk.count("components with two features of one image", sum(len({im for im, _ in c}) != len(c) for c in comps))
        for rep in range(3):
            m = as_matches(rng, edges, kind)
            if rep == 1:
                m = {k: np.array(v, dtype=rng.choice([np.int32, np.int64, np.uint32])) for k, v in m.items()}
            elif rep == 2:
                m = {k: [tuple(int(x) for x in p) for p in v] for k, v in m.items()}
                for k in [(a, b) for a in images for b in images if a != b][:3]:
                    m.setdefault(k, [])
            given = (radial, std)[: 2 if std != 1.0 else 1 if not radial else int(rng.integers(0, 3))]  # the rest by default
            ok, tm = chk.guard(lambda: tracking.create_tracks_manager(feats, colors, seg, inst, m, min_length, depths, *given), "building tracks")
            if not ok:
                continue
            chk.count("orderings compared")
            tracks, data = content(tm)
            chk.count("tracks compared", len(tracks))
            if missing:
                chk.count("featureless images")
                chk.expect(all(len(t) >= min_length for t in tracks), "a track has fewer observations than configured", tracks=[len(t) for t in tracks])
                chk.expect(all(any(t <= c for c in comps) for t in tracks), "a track is not part of a component")
                chk.expect(not any(im in missing for t in tracks for im, _ in t), "an image without features observes a track")
                clean = {c for c in good if not any(im in missing for im, _ in c)}
                chk.expect(clean <= set(tracks), "a component without missing images is not a track")
            else:
                chk.expect(len(tracks) == len(set(tracks)), "a component makes two tracks")
                if not chk.expect(set(tracks) == set(good), "tracks are not the consistent components",
                                  lost=sorted(map(sorted, set(good) - set(tracks)))[:3], extra=sorted(map(sorted, set(tracks) - set(good)))[:3],
                                  min_length=min_length):
                    continue
            chk.expect(tm.num_tracks() == len(tracks), "number of tracks")
            for (im, f), (pt, sc, col, sg, ins, dp) in data.items():
                chk.count("observations compared")
                x = features[im][f]
                chk.expect(abs(pt[0] - x[0]) < 1e-12 and abs(pt[1] - x[1]) < 1e-12 and abs(sc - x[2]) < 1e-12, "coordinates are not the feature's",
                           feature=(im, f), got=(pt, sc), expected=x)
                chk.expect(col == tuple(int(v) for v in colors[im][f]), "color is not the feature's", feature=(im, f), got=col, expected=colors[im][f])
                chk.expect(sg == (int(seg[im][f]) if im in seg else NO), "segmentation is not the feature's", got=sg)
                chk.expect(ins == (int(inst[im][f]) if im in inst else NO), "instance is not the feature's", got=ins)
                want = None
                if im in depths and np.isfinite(depths[im][f]):
                    z = float(depths[im][f])
                    want = (z, max(std * z, std), radial)
                    chk.count("depth priors compared")
                chk.expect((dp is None) == (want is None) and (dp is None or (abs(dp[0] - want[0]) <= 1e-6 * want[0] and
                           abs(dp[1] - want[1]) <= 1e-6 * want[1] and dp[2] == want[2])), "depth prior", got=dp, expected=want)
            if rep == 0:
                queries(chk, rng, tm, tracks, data)


def queries(chk, rng, tm, tracks, data):
    """Pairs of images with common tracks, against the partition itself."""
    from opensfm import tracking

    per = {}
    for t in tm.get_track_ids():
        for im, o in tm.get_track_observations(t).items():
            per.setdefault(im, {})[t] = int(o.id)
    ims = sorted(per)
    expected = {}
    for a in range(len(ims)):
        for b in range(a + 1, len(ims)):
            c = set(per[ims[a]]) & set(per[ims[b]])
            if c:
                expected[ims[a], ims[b]] = c
    for (a, b), c in list(expected.items())[:8]:
        for x, y in ((a, b), (b, a)):
            ids, p1, p2 = tracking.common_tracks(tm, x, y)
            chk.count("pair queries")
            chk.expect(len(ids) == len(set(ids)) and set(ids) == c, "common tracks of two images", got=len(ids), expected=len(c))
            chk.expect(all(np.allclose(p1[k], data[x, per[x][t]][0], atol=0) and np.allclose(p2[k], data[y, per[y][t]][0], atol=0)
                           for k, t in enumerate(ids)), "common tracks: points belong to the other image or track")
    for lim in (1, int(rng.integers(1, 8)), 50):
        want = {frozenset(k): v for k, v in expected.items() if len(v) >= lim}
        for include in (True, False):
            got = tracking.all_common_tracks(tm, include_features=include, min_common=lim)
            chk.expect({frozenset(k) for k in got} == set(want) and len(got) == len(want), "image pairs with enough common tracks",
                       limit=lim, got=sorted(got), expected=sorted(map(sorted, want)))
            for (x, y), v in got.items():
                ids = v[0] if include else v
                chk.expect(set(ids) == want.get(frozenset((x, y))) and len(ids) == len(set(ids)), "tracks common to a pair")
                if include:
                    chk.expect(v[1].shape == (len(ids), 2) and all(np.array_equal(v[1][k], data[x, per[x][t]][0]) and
                               np.array_equal(v[2][k], data[y, per[y][t]][0]) for k, t in enumerate(ids)), "points of the tracks common to a pair")
        by = {} if lim == 50 else {"min_common": lim}
        chk.expect(set(map(frozenset, tracking.all_common_tracks_with_features(tm, **by))) == set(want), "pairs with features")
        chk.expect(set(map(frozenset, tracking.all_common_tracks_without_features(tm, **by))) == set(want), "pairs without features")
    g = tracking.as_weighted_graph(tm)
    chk.expect(set(g.nodes) == set(per), "image graph: nodes")
    chk.expect({frozenset(e): d["weight"] for *e, d in g.edges(data=True)} == {frozenset(k): len(v) for k, v in expected.items()},
               "image graph: weights are not the numbers of common tracks")
    if set(per) & set(tm.get_track_ids()):
        return  # the legacy graph has one name space for both
    g = tracking.as_graph(tm)
    chk.expect({frozenset(e) for e in g.edges} == {frozenset((im, t)) for im in per for t in per[im]}, "bipartite graph: edges")
    for side, names in ((0, set(per)), (1, set(tm.get_track_ids()))):
        chk.expect({x for x, d in g.nodes(data=True) if d.get("bipartite") == side} == names, "bipartite graph: sides")
    for im in per:
        for t, f in per[im].items():
            e = g[im][t]
            pt, sc, col, sg, ins, _ = data[im, f]
            chk.expect(e["feature_id"] == f and np.array_equal(e["feature"], pt) and e["feature_scale"] == sc and tuple(e["feature_color"]) == col
                       and e["feature_segmentation"] == sg and e["feature_instance"] == ins, "bipartite graph: feature of an edge")


def datasets(chk, rng):
    """The create_tracks command on a dataset."""
    from opensfm import dataset, features as F
    from opensfm.actions import create_tracks

    for i in range(chk.n(24, 240)):
        root = os.path.join(chk.tmp, "d%d" % i)
        images, counts, edges = scene(rng)
        images = [im.replace("dir/", "") + ("" if im.endswith(("jpg", "png")) else ".jpg") for im in images]
        edges = [tuple((im.replace("dir/", "") + ("" if im.endswith(("jpg", "png")) else ".jpg"), f) for im, f in e) for e in edges]
        counts = {im: c for im, c in zip(images, counts.values())}
        ml = int(rng.choice([2, 3]))
        data = dsgen.make_dataset(root, images, {"min_track_length": ml})
        stored, labels = {}, {}
        for im in images:
            n = counts[im]
            sem = None
            if rng.random() < 0.5:
                labels[im] = (rng.integers(0, 9, n), rng.integers(0, 99, n) if rng.random() < 0.5 else None)
                sem = F.SemanticData(labels[im][0], labels[im][1], [{"label": "l%d" % k} for k in range(9)])
            pts = rng.normal(size=(n, 4)).astype(np.float32)
            stored[im] = (pts, rng.integers(0, 256, (n, 3)))
            data.save_features(im, F.FeaturesData(pts, rng.random((n, 4)).astype(np.float32), stored[im][1], sem))
        # matches towards an image outside the dataset, and images without a match file
        per = {}
        for (a, fa), (b, fb) in edges:
            per.setdefault(a, {}).setdefault(b, []).append((fa, fb))
        for a, m in per.items():
            if rng.random() < 0.5:
                m["gone.jpg"] = [(0, 0)]
            data.save_matches(a, {b: np.array(v, dtype=int) for b, v in m.items()})
        chk.case("dataset", {"images": len(images), "edges": len(edges), "min_length": ml}, sig=(chk.shard, i))
        ok, _ = chk.guard(lambda: create_tracks.run_dataset(data), "create_tracks")
        if not ok:
            continue
        chk.count("datasets run")
        tm = dataset.DataSet(root).load_tracks_manager()
        tracks, obs = content(tm)
        good = {c for c in components(edges) if len(c) >= ml and len({im for im, _ in c}) == len(c)}
        chk.expect(set(tracks) == good and len(tracks) == len(good), "create_tracks: tracks are not the consistent components",
                   got=len(tracks), expected=len(good))
        for (im, f), (pt, sc, col, sg, ins, _) in obs.items():
            x = stored[im][0][f]
            # version 2 track files write six significant digits
            chk.expect(np.allclose([pt[0], pt[1], sc], x[:3], rtol=2e-5, atol=1e-7) and col == tuple(stored[im][1][f]), "create_tracks: observation",
                       got=(pt, sc, col), expected=(x, stored[im][1][f]))
            if im in labels:
                chk.expect(sg == labels[im][0][f] and (labels[im][1] is None or ins == labels[im][1][f]), "create_tracks: labels", got=(sg, ins))
        rep = json.loads(data.load_report("tracks.json"))
        shots = {im for t in good for im, _ in t}
        chk.expect(rep["num_images"] == len(shots) and rep["num_tracks"] == len(good), "tracks report: numbers", report=rep)
        pairs = {}
        for t in good:
            ims = sorted(im for im, _ in t)
            for a in range(len(ims)):
                for b in range(a + 1, len(ims)):
                    k = frozenset((ims[a], ims[b]))
                    pairs[k] = pairs.get(k, 0) + 1
        chk.expect({frozenset(e[:2]): e[2] for e in rep["view_graph"]} == pairs and len(rep["view_graph"]) == len(pairs), "tracks report: view graph")
        chk.expect(abs(rep["wall_time"] - sum(rep["wall_times"].values())) < 1e-9, "tracks report: times")


def unionfind(chk, rng):
    from opensfm.unionfind import UnionFind

    for i in range(chk.n(200, 4000)):
        n = int(rng.integers(1, 40))
        uf = UnionFind()
        edges = []
        chk.case("union-find", {"n": n}, sig=(chk.shard, i))
        for _ in range(int(rng.integers(0, 50))):
            k = [int(x) for x in rng.integers(0, n, int(rng.integers(1, 4)))]
            uf.union(*k)
            edges += [(k[0], x) for x in k]
            if rng.random() < 0.3:
                uf[int(rng.integers(n))]
        comps = components(edges)
        for c in comps:
            roots = {uf[x] for x in c}
            chk.expect(len(roots) == 1 and roots <= c, "one name per set, taken from the set", roots=sorted(roots), members=sorted(c))
        chk.expect(len({uf[next(iter(c))] for c in comps}) == len(comps), "different sets have different names")


def run(chk):
    rng = chk.rng_for("c13")
    unionfind(chk, rng)
    graphs(chk, rng)
    datasets(chk, rng)
