"""C14: descriptor and robust matching return what their definitions demand."""
import os

import numpy as np

import gen
import scenes

SHARDS = {"quick": 6, "thorough": 8}
TARGETS = ["pyfeatures", "pygeometry", "pymap", "pyrobust"]
REQUIRED = ["brute force matches compared", "word matches compared", "index searches logged", "symmetric results compared", "masked brute force compared",
            "robust runs", "exact matches kept", "wrong matches rejected", "pipeline matches compared", "guided matches compared", "guided completeness judged",
            "degenerate robust inputs", "filters compared", "parallel rays", "turned pairs stored", "configured matchers compared"]
RULE = ("one case = one pair of descriptor sets (random, clustered, duplicated, binary, tiny), one set of correspondences with planted wrong ones, "
        "or one dataset of images with masks matched end to end; non-trivial always")
ASSUMPTIONS = ["pairs within 1e-5 (relative) of the ratio threshold may be decided either way",
               "approximate indices are judged on what their own searches returned",
               "robust matching is judged on correspondences whose wrong part is far from the true epipolar geometry"]


def dist_matrix(a, b):
    if a.dtype == np.uint8:
        return np.unpackbits(a[:, None, :] ^ b[None, :, :], axis=2).sum(axis=2).astype(float)
    d = a[:, None, :].astype(float) - b[None, :, :].astype(float)
    return np.sqrt((d * d).sum(axis=2))


def ratio_pairs(D, ratio, allowed=None, lone=False):
    """Exact answer: (sure pairs, doubtful pairs). lone: a single candidate passes."""
    sure, maybe = set(), set()
    for i in range(D.shape[0]):
        c = np.arange(D.shape[1]) if allowed is None else np.nonzero(allowed[i])[0]
        if len(c) == 0 or (len(c) == 1 and not lone):
            continue
        d = D[i, c]
        o = np.argsort(d, kind="stable")
        best = d[o[0]]
        second = d[o[1]] if len(c) > 1 else np.inf
        eps = 1e-5 * (1 + best)
        if best < ratio * second - eps:
            sure.add((i, int(c[o[0]])))
        elif best < ratio * second + eps:
            maybe |= {(i, int(c[k])) for k in o[:2] if d[k] <= best + eps}
    return sure, maybe


def agree(chk, got, sure, maybe, what, **info):
    got = [(int(a), int(b)) for a, b in got]
    s = set(got)
    ok = sure <= s and s <= sure | maybe
    chk.expect(ok, what, missing=sorted(sure - s)[:5], extra=sorted(s - sure - maybe)[:5], **info)
    chk.expect(len(got) == len(s), what + ": a pair is repeated", **info)
    return s


def descriptors(rng):
    n1, n2 = (int(rng.choice([1, 2, 3, 10, 40, 120])) for _ in range(2))
    dim = int(rng.choice([1, 2, 8, 32, 128]))
    style = str(rng.choice(["random", "near copies", "duplicates", "clusters", "binary", "constant"]))
    if style == "binary":
        dim = int(rng.choice([8, 32, 61]))
        a, b = (rng.integers(0, 256, (n, dim)).astype(np.uint8) for n in (n1, n2))
        k = min(n1, n2)
        b[:k] = a[:k]
        flip = rng.integers(0, dim, k)
        b[np.arange(k), flip] ^= rng.integers(0, 256, k).astype(np.uint8)
        b = b[rng.permutation(n2)]
        return a, b, style
    a, b = rng.normal(size=(n1, dim)), rng.normal(size=(n2, dim))
    k = min(n1, n2)
    if style in ("near copies", "duplicates"):
        b[:k] = a[:k] + (0.05 * rng.normal(size=(k, dim)) if style == "near copies" else 0)
        if style == "duplicates" and n2 > 3:
            b[1] = b[0]
    elif style == "clusters":
        c = rng.normal(size=(4, dim)) * 5
        a, b = (c[rng.integers(0, 4, n)] + 0.3 * rng.normal(size=(n, dim)) for n in (n1, n2))
    elif style == "constant":
        a[:], b[:] = 1.0, 1.0
    p = rng.permutation(n2)
    return a.astype(np.float32), b[p].astype(np.float32), style


class Index:
    """A flann index that remembers its searches."""

    def __init__(self, index):
        self.index, self.log = index, []

    def knnSearch(self, *a, **k):
        r = self.index.knnSearch(*a, **k)
        self.log.append((np.array(a[0]), np.array(r[0]), np.array(r[1])))
        return r

    def __getattr__(self, name):
        return getattr(self.index, name)


def matchers(chk, rng):
    from opensfm import config, features, matching

    for i in range(chk.n(260, 5000)):
        a, b, style = descriptors(rng)
        cfg = config.default_config()
        cfg["lowes_ratio"] = ratio = float(rng.choice([0.8, 0.6, 0.95, 0.5]))
        chk.case("descriptors", {"style": style, "shapes": (a.shape, b.shape), "ratio": ratio}, sig=(chk.shard, i))
        D = dist_matrix(a, b)
        # brute force
        sure, maybe = ratio_pairs(D, ratio)
        ok, m = chk.guard(lambda: matching.match_brute_force(a, b, cfg), "brute force")
        if ok:
            agree(chk, m, sure, maybe, "brute force matching")
            chk.count("brute force matches compared", len(m) + 1)
            chk.expect(len({x for x, _ in m}) == len(m), "brute force: a feature is matched twice")
        sure2, maybe2 = ratio_pairs(D.T, ratio)
        back, mback = {(x, y) for y, x in sure2}, {(x, y) for y, x in maybe2}
        ok, m = chk.guard(lambda: matching.match_brute_force_symmetric(a, b, cfg), "symmetric brute force")
        if ok:
            agree(chk, m, sure & back, (sure | maybe) & (back | mback), "symmetric brute force matching")
            chk.count("symmetric results compared")
        # restricted to the pairs a mask allows
        allowed = rng.random(D.shape) < rng.choice([0.1, 0.5, 0.9])
        sure, maybe = ratio_pairs(D, ratio, allowed)
        ok, m = chk.guard(lambda: matching.match_brute_force(a, b, cfg, allowed), "masked brute force")
        if ok:
            agree(chk, m, sure, maybe, "masked brute force matching")
            chk.expect(all(allowed[x, y] for x, y in m), "masked brute force returns a forbidden pair")
            chk.count("masked brute force compared")
        sure2, maybe2 = ratio_pairs(D.T, ratio, allowed.T)
        back, mback = {(x, y) for y, x in sure2}, {(x, y) for y, x in maybe2}
        ok, m = chk.guard(lambda: matching.match_brute_force_symmetric(a, b, cfg, allowed), "masked symmetric brute force")
        if ok:
            agree(chk, m, sure & back, (sure | maybe) & (back | mback), "masked symmetric brute force matching")
        # words
        if a.dtype == np.float32:
            words(chk, rng, matching, a, b, D, cfg, ratio)
        # approximate index
        if len(a) >= 2 and len(b) >= 2 and style != "constant":
            index(chk, rng, matching, features, a, b, D, cfg, ratio)


def words(chk, rng, matching, a, b, D, cfg, ratio):
    vocab = int(rng.choice([1, 3, 10, 50]))
    k = int(min(vocab, rng.choice([1, 3, 10])))
    w1 = np.array([rng.permutation(vocab)[:k] for _ in range(len(a))], dtype=np.int32)
    w2 = np.array([rng.permutation(vocab)[:k] for _ in range(len(b))], dtype=np.int32)
    for checks in (10**6, int(rng.choice([1, 2, 5, 20]))):
        cfg["bow_num_checks"] = checks

        def seen(wa, wb):
            """Candidates examined: those of the closest words until enough were looked at."""
            out = np.zeros((len(wa), len(wb)), bool)
            for i in range(len(wa)):
                n = 0
                for w in wa[i]:
                    c = wb[:, 0] == w
                    out[i] |= c
                    n += c.sum()
                    if n >= checks:
                        break
            return out

        ab, ba = seen(w1, w2), seen(w2, w1)
        sure, maybe = ratio_pairs(D, ratio, ab, lone=True)
        ok, m = chk.guard(lambda: matching.match_words(a, w1, b, w2, cfg), "word matching")
        if ok:
            agree(chk, m, sure, maybe, "word matching", checks=checks)
            chk.expect(len({int(x) for x, _ in m}) == len(m), "words: a feature is matched twice")
            chk.expect(all(w2[y, 0] in w1[x] for x, y in m), "words: the features of a pair share no word")
            chk.count("word matches compared", len(m) + 1)
        sure2, maybe2 = ratio_pairs(D.T, ratio, ba, lone=True)
        back, mback = {(x, y) for y, x in sure2}, {(x, y) for y, x in maybe2}
        ok, m = chk.guard(lambda: matching.match_words_symmetric(a, w1, b, w2, cfg), "symmetric word matching")
        if ok:
            agree(chk, m, sure & back, (sure | maybe) & (back | mback), "symmetric word matching", checks=checks)


def index(chk, rng, matching, features, a, b, D, cfg, ratio):
    cfg["flann_algorithm"] = str(rng.choice(["KMEANS", "KDTREE", "kmeans"]))
    cfg["flann_checks"] = int(rng.choice([1, 20, 10000]))
    if a.dtype == np.uint8 and a.shape[1] * 8 < 32:
        return
    ok, r = chk.guard(lambda: (Index(features.build_flann_index(a, cfg)), Index(features.build_flann_index(b, cfg))), "building indices")
    if not ok:
        return
    ia, ib = r
    power = 1 if a.dtype == np.uint8 else 2
    found = []
    for name, ix, q, DD, fn in (("one", ia, b, D.T, lambda: matching.match_flann(ia, b, cfg)), ("other", ib, a, D, lambda: matching.match_flann(ib, a, cfg))):
        ok, m = chk.guard(fn, "index matching")
        if not ok:
            return
        m = [(int(x), int(y)) for x, y in m]
        found.append(m)
        chk.expect(len({y for _, y in m}) == len(m), "index: a feature is matched twice")
        chk.expect(all(0 <= x < DD.shape[1] and 0 <= y < DD.shape[0] for x, y in m), "index: match out of range", pairs=m[:5])
        for x, y in m:
            # what the searches saw must include a runner-up far enough away
            far = np.sort(DD[y])[-1]
            chk.expect(DD[y, x] <= ratio * far + 1e-4 or a.dtype == np.uint8, "index: the pair cannot pass the ratio test", pair=(x, y))
        if ix.log:
            chk.count("index searches logged")
            query, res, d = ix.log[-1]
            if len(query) == len(q) and np.array_equal(query, q):
                d = d.astype(float)
                d = np.sqrt(d) if power == 2 else d
                eps = 1e-5 * (1 + d[:, 0])
                sure = {(int(res[k, 0]), k) for k in range(len(q)) if d[k, 0] < ratio ** (1 if power == 2 else 2) * d[k, 1] - eps[k] and res[k, 0] >= 0}
                may = {(int(res[k, 0]), k) for k in range(len(q)) if d[k, 0] < ratio * d[k, 1] + eps[k] and res[k, 0] >= 0}
                agree(chk, m, sure, may, "index matching against the neighbours the index returned", checks=cfg["flann_checks"])
                good = res[:, 0] >= 0
                chk.close(d[good, 0], DD[np.arange(len(q))[good], res[good, 0]], 1e-3, "distances reported by the index", rel=True)
    ok, m = chk.guard(lambda: matching.match_flann_symmetric(a, ia, b, ib, cfg), "symmetric index matching")
    if ok:
        one, other = set(found[0]), {(y, x) for x, y in found[1]}
        chk.expect({(int(x), int(y)) for x, y in m} == one & other and len(m) == len(one & other),
                   "symmetric index matching is not what both directions found", got=len(m), expected=len(one & other))
        chk.count("symmetric results compared")


# ---------------------------------------------------------------- robust
def epipolar_angles(b1, b2, R, t):
    """Angle of each bearing to the epipolar plane of the other. R, t: camera 2 in camera 1."""
    tn = t / np.linalg.norm(t)
    c2 = b2 @ R.T
    n1, n2 = np.cross(tn, b1), np.cross(tn, c2)
    n1 /= np.linalg.norm(n1, axis=1)[:, None]
    n2 /= np.linalg.norm(n2, axis=1)[:, None]
    return np.maximum(np.abs(np.arcsin(np.clip((n1 * c2).sum(1), -1, 1))), np.abs(np.arcsin(np.clip((n2 * b1).sum(1), -1, 1))))


def two_views(rng, models, points, strength):
    S = scenes.make(rng, models, shots=2, points=points, layout="inside" if "spherical" in models else "ring", strength=strength)
    # a wide enough baseline
    a, b = list(S.shots)
    if "spherical" in models:
        R1, R2 = (gen.rand_rotation(rng) if False else gen.look_at(np.zeros(3), [rng.normal(), 1, 0.1 * rng.normal()]) for _ in range(2))
        e1 = np.zeros(3)
        e2 = rng.normal(size=3) * [1, 1, 0.3]
        e2 *= 2.0 / np.linalg.norm(e2)
    else:
        e1 = np.array([0.0, -6, 0])
        e2 = e1 + [rng.choice([-1, 1]) * rng.uniform(1.5, 2.5), 0.5 * rng.normal(), 0.5 * rng.normal()]
        R1, R2 = gen.look_at(e1, 0.2 * rng.normal(size=3)), gen.look_at(e2, 0.2 * rng.normal(size=3))
    for s, R, e in ((a, R1, e1), (b, R2, e2)):
        S.shots[s].update(R=R, t=-R @ e)
    S.observe()
    both = sorted(set(S.obs[a]) & set(S.obs[b]))
    R = R1 @ R2.T
    t = R1 @ (e2 - e1)
    return S, a, b, both, R, t


def robust(chk, rng):
    from opensfm import config, matching

    kinds = [("perspective",) * 2, ("perspective", "brown"), ("fisheye",) * 2, ("fisheye_opencv", "perspective"), ("brown",) * 2, ("spherical",) * 2,
             ("spherical", "perspective"), ("fisheye62",) * 2, ("dual", "radial"), ("simple_radial",) * 2, ("fisheye624", "dual")]
    for i in range(chk.n(66, 1200)):
        models = kinds[(i * chk.shards + chk.shard) % len(kinds)]
        strength = 0.0 if models[0] == "perspective" and rng.random() < 0.6 else 0.5
        S, s1, s2, both, R, t = two_views(rng, models, 260, strength)
        cams = [gen.make_camera(S.cams[S.shots[s]["cam"]], S.shots[s]["cam"]) for s in (s1, s2)]
        if len(both) < 60:
            continue
        n_out = int(len(both) * rng.choice([0, 0.1, 0.3]))
        f1, f2 = S.feature_ids(s1), S.feature_ids(s2)
        p1 = np.array([list(S.obs[s1][k]) + [0.01] for k in sorted(S.obs[s1])])
        p2 = np.array([list(S.obs[s2][k]) + [0.01] for k in sorted(S.obs[s2])])
        pairs = [(f1[k], f2[k]) for k in both]
        # wrong matches, far from the epipolar geometry
        bear = lambda c, p: np.array(c.pixel_bearing_many(np.ascontiguousarray(p[:, :2])))  # noqa: E731
        b1, b2 = bear(cams[0], p1), bear(cams[1], p2)
        wrong = []
        for _ in range(40 * n_out):
            x, y = int(rng.integers(len(p1))), int(rng.integers(len(p2)))
            if len(wrong) < n_out and epipolar_angles(b1[x:x + 1], b2[y:y + 1], R, t)[0] > 0.06:
                wrong.append((x, y))
        m = np.array(pairs + wrong, dtype=int)
        order = rng.permutation(len(m))
        m = m[order]
        cfg = config.default_config()
        ok, got = chk.guard(lambda: matching.robust_match(p1, p2, cams[0], cams[1], m, cfg), "robust matching of %s" % "-".join(models))
        chk.case("robust", {"models": models, "right": len(pairs), "wrong": len(wrong), "strength": strength}, sig=(chk.shard, i))
        chk.count("robust runs")
        if not ok:
            continue
        got = [(int(a), int(b)) for a, b in got]
        given = {tuple(int(v) for v in x) for x in m}
        chk.expect(set(got) <= given, "robust matching invents a match", models=models)
        kept, bad = set(got) & set(pairs), set(got) & set(wrong)
        chk.count("exact matches kept", len(kept))
        chk.count("wrong matches rejected", len(wrong) - len(bad))
        chk.expect(len(kept) >= 0.95 * len(set(pairs)), "robust matching drops exact matches", models=models, kept=len(kept), of=len(pairs), wrong=len(wrong))
        chk.expect(not bad, "robust matching keeps a match far from the epipolar geometry", models=models, kept=len(bad), of=len(wrong), threshold=0.004)
        chk.expect(len(got) == len([x for x in map(tuple, m.tolist()) if x in set(got)]), "robust matching repeats or drops equal matches")
        # the helper deciding the last step
        ok, ins = chk.guard(lambda: matching.compute_inliers_bearings(b1[m[:, 0]], b2[m[:, 1]], R, t, 0.004), "inliers of a known motion")
        if ok:
            front = np.array(ins, bool)
            right = np.array([tuple(x) in set(pairs) for x in m.tolist()])
            chk.expect(bool(np.all(front[right])), "an exact match is no inlier of the true motion", models=models, lost=int((right & ~front).sum()))
            chk.expect(not np.any(front & ~right), "a wrong match is an inlier of the true motion", models=models)
        # the same with parallel rays, which have no intersection, strewn in
        k = rng.random(len(m)) < 0.15
        x1, x2 = b1[m[:, 0]].copy(), b2[m[:, 1]].copy()
        x2[k] = x1[k] @ R
        ok, ins = chk.guard(lambda: matching.compute_inliers_bearings(x1, x2, R, t, 0.004), "inliers of a known motion with parallel rays")
        if ok:
            chk.expect([bool(v) for v in ins] == [bool(v) for v in right & ~k], "inliers of a motion when some rays are parallel", models=models,
                       wrong=[j for j in range(len(m)) if bool(ins[j]) != bool(right[j] and not k[j])][:5], parallel=int(k.sum()))
            chk.count("parallel rays", k.sum())
            for j in range(min(4, len(m))):  # one by one
                ok, one = chk.guard(lambda: matching.compute_inliers_bearings(x1[j:j + 1], x2[j:j + 1], R, t, 0.004), "inliers of one pair of rays")
                chk.expect(not ok or [bool(v) for v in one] == [bool(right[j] and not k[j])], "a single pair of rays is judged differently")
        # rays that miss each other by little seen from the far camera, by much seen from the near one
        for near in (1, 2):
            c1, c2 = np.zeros(3), t
            side = np.array(rng.normal(size=3))
            side /= np.linalg.norm(side)
            X = (c2 if near == 2 else c1) + side * np.linalg.norm(t) * 0.05
            v = [X - c1, R.T @ (X - c2)]
            v = [u / np.linalg.norm(u) for u in v]
            off = np.cross(X - c1, t) if near == 1 else R.T @ np.cross(X - c1, t)
            if np.linalg.norm(off) < 0.02 * np.linalg.norm(t) ** 2:
                continue
            w = v[near - 1] + 0.03 * off / np.linalg.norm(off)
            v[near - 1] = w / np.linalg.norm(w)
            ok, one = chk.guard(lambda: matching.compute_inliers_bearings(v[0][None], v[1][None], R, t, 0.004), "inliers of rays that miss each other")
            chk.expect(not ok or not one[0], "rays that miss each other are inliers", near_camera=near)
            chk.count("rays that miss each other near a camera")
        ok, ins = chk.guard(lambda: matching.compute_inliers_bearings(x1[k], x2[k], R, t, 0.004), "inliers of parallel rays only")
        if ok:
            chk.expect(len(ins) == k.sum() and not any(ins), "parallel rays are inliers")


def degenerate(chk, rng):
    """Whatever the correspondences, robust matching answers with a subset."""
    from opensfm import config, matching

    for i in range(chk.n(60, 1000)):
        models = [("perspective",) * 2, ("brown", "fisheye"), ("spherical",) * 2][i % 3]
        ps = [scenes.camera(rng, m, 0.0 if i % 2 else 0.5) for m in models]
        cams = [gen.make_camera(p, "c%d" % k) for k, p in enumerate(ps)]
        n = int(rng.choice([0, 1, 5, 7, 8, 9, 20, 60]))
        kind = str(rng.choice(["random", "same point", "line", "same image", "plane", "repeated", "corner"]))
        p1, p2 = rng.uniform(-0.3, 0.3, (2, max(n, 1), 3))
        if kind == "same point":
            p1[:] = p1[0]
            p2[:] = p2[0]
        elif kind == "line":
            p1[:, 1] = p1[:, 0]
            p2[:, 1] = 0
        elif kind == "same image":
            p2 = p1.copy()
        elif kind == "plane":
            p2[:, :2] = p1[:, :2] @ np.array([[0.9, 0.1], [-0.1, 0.8]]) + 0.05
        elif kind == "corner":
            p1[:], p2[:] = 0.5, -0.5
        m = rng.integers(0, len(p1), (n, 2))
        if kind in ("same image", "plane"):
            m[:, 1] = m[:, 0]
        if kind == "repeated" and n:
            m[:] = m[0]
        chk.case("degenerate robust", {"kind": kind, "n": n, "models": models}, sig=(chk.shard, i))
        chk.count("degenerate robust inputs")
        cfg = config.default_config()
        ok, got = chk.guard(lambda: matching.robust_match(p1, p2, cams[0], cams[1], m, cfg), "robust matching of %s (%s, %d)" % ("-".join(models), kind, n))
        if ok:
            chk.expect(n >= 8 or len(got) == 0, "a geometry was fitted to fewer than 8 matches", n=n)
            chk.expect({tuple(map(int, x)) for x in got} <= {tuple(map(int, x)) for x in m}, "robust matching invents a match")


# -------------------------------------------------------------- pipeline
def pipeline(chk, rng):
    import cv2
    from opensfm import config, dataset, features, feature_loader, matching, pygeometry

    for i in range(chk.n(18, 180)):
        root = os.path.join(chk.tmp, "p%d" % i)
        model = str(rng.choice(["perspective", "fisheye", "brown", "spherical"]))
        S = scenes.make(rng, (model,), shots=3, points=320, layout="inside" if model == "spherical" else "line", strength=float(rng.choice([0.0, 0.5])))
        matcher = str(rng.choice(["FLANN", "BRUTEFORCE", "WORDS"]))
        sym = bool(rng.random() < 0.6)
        cfg = {"matcher_type": matcher if rng.random() < 0.8 else matcher.lower(), "symmetric_matching": sym, "flann_checks": 5000, "bow_num_checks": 10000,
               "processes": int(rng.choice([1, 3])), "robust_matching_min_match": 20,
               "matching_gps_distance": 0, "feature_type": "HAHOG", "matching_use_segmentation": False}
        if i % 6 == 5:
            cfg["matching_use_segmentation"] = True
        ims = list(S.shots)
        data = S.dataset(root, cfg)
        base = S.descriptors(rng, 32, 100.0)
        W = rng.integers(0, 50, len(S.X))
        label, stored, masked = {}, {}, {}
        for im in ims:
            ks = sorted(S.obs[im])
            extra = int(rng.integers(0, 30))  # clutter
            lab = ks + [-1] * extra
            xy = np.array([S.obs[im][k] for k in ks] + [[rng.uniform(-0.3, 0.3), rng.uniform(-0.2, 0.2)] for _ in range(extra)])
            d = np.concatenate([base[ks] + rng.normal(size=(len(ks), 32)), 50 * rng.normal(size=(extra, 32))]).astype(np.float32)
            perm = rng.permutation(len(lab))
            lab = [lab[k] for k in perm]
            pts = np.concatenate([xy[perm], rng.uniform(0.001, 0.01, (len(lab), 1)), rng.uniform(0, 6, (len(lab), 1))], 1)
            sem = features.SemanticData(np.array([lab[k] % 3 for k in range(len(lab))]), None, [{"label": "%d" % k} for k in range(3)]) if i % 6 == 5 else None
            data.save_features(im, features.FeaturesData(pts, d[perm], rng.integers(0, 255, (len(lab), 3)), sem))
            data.save_words(im, np.array([[W[k] if k >= 0 else 51, 60, 61] for k in lab], dtype=np.int32))
            label[im] = lab
            # mask out part of the image
            p = S.cams[S.shots[im]["cam"]]
            keep = np.ones(len(lab), bool)
            if rng.random() < 0.7:
                m = np.full((p["height"], p["width"]), 255, np.uint8)
                x0 = int(rng.integers(0, p["width"] // 2))
                x1 = x0 + int(rng.integers(1, p["width"] // 3))
                m[:, x0:x1] = 0
                os.makedirs(os.path.join(root, "masks"), exist_ok=True)
                cv2.imwrite(os.path.join(root, "masks", im + ".png"), m)
                px = pts[:, 0] * max(p["width"], p["height"]) + (p["width"] - 1) / 2
                keep = (px < x0 - 1) | (px > x1 + 1)
                masked[im] = (px > x0 + 1) & (px < x1 - 2)
            else:
                masked[im] = ~keep
            stored[im] = keep
        data = dataset.DataSet(root)
        truth = {}
        for x in range(3):
            for y in range(3):
                if x != y:
                    ia = {k: n for n, k in enumerate(label[ims[x]]) if k >= 0 and stored[ims[x]][n]}
                    ib = {k: n for n, k in enumerate(label[ims[y]]) if k >= 0 and stored[ims[y]][n]}
                    truth[ims[x], ims[y]] = {(ia[k], ib[k]) for k in set(ia) & set(ib)}
        feature_loader.instance.clear_cache()
        chk.case("pipeline", {"matcher": cfg["matcher_type"], "symmetric": sym, "model": model, "masks": [im for im in ims if masked[im].any()],
                              "segmentation": cfg["matching_use_segmentation"], "common": {"%s-%s" % k: len(v) for k, v in truth.items()}}, sig=(chk.shard, i))

        def judge(a, b, m, what, complete=True, empty_below=20):
            m = [tuple(int(v) for v in x) for x in m]
            chk.count("pipeline matches compared", len(m))
            want = truth[a, b]
            chk.expect(len(m) == len(set(m)), what + ": a pair is repeated")
            bad = [x for x in m if not (0 <= x[0] < len(label[a]) and 0 <= x[1] < len(label[b]))]
            if not chk.expect(not bad, what + ": index out of range", pairs=bad[:4]):
                return
            wrong = [x for x in m if label[a][x[0]] != label[b][x[1]] or label[a][x[0]] < 0]
            # a lone word candidate has no runner-up to be compared with
            most = 0.5 if matcher == "WORDS" and what == "match_descriptors" else 0.1
            chk.expect(len(wrong) <= most * len(m), what + ": matches of different points", count=len(wrong), of=len(m), matcher=matcher)
            hid = [x for x in m if masked[a][x[0]] or masked[b][x[1]]]
            chk.expect(not hid, what + ": a masked feature is matched", pairs=hid[:4])
            if complete and len(want) >= 40:
                chk.expect(len(set(m) & want) >= 0.9 * len(want), what + ": true matches are missing", found=len(set(m) & want), of=len(want), matcher=matcher)
            if empty_below and m:
                chk.expect(len(m) >= empty_below, what + ": fewer matches than the configured minimum")

        cams = data.load_camera_models()
        cam = {im: cams[S.shots[im]["cam"]] for im in ims}
        a, b = (ims[k] for k in rng.choice(3, 2, replace=False))
        ok, m = chk.guard(lambda: matching.match_descriptors(a, b, cam[a], cam[b], data, {}), "match_descriptors")
        if ok:
            judge(a, b, m, "match_descriptors", empty_below=0)
            # a robust step on matches expressed in unmasked indices
            ok, r = chk.guard(lambda: matching.match_robust(a, b, m, cam[a], cam[b], data, {}, input_is_masked=False), "match_robust")
            if ok:
                judge(a, b, r, "match_robust (original indices)")
                if len(r) >= 20:  # "minimum number of matches to accept": exactly that many are accepted
                    runs = [chk.guard(lambda: matching.match_robust(a, b, m, cam[a], cam[b], data, {"robust_matching_min_match": v}, input_is_masked=False),
                                      "match_robust with a minimum") for v in (20, 20, len(r), len(r) + 1)]
                    if all(x[0] for x in runs) and len(runs[0][1]) == len(runs[1][1]) == len(r):
                        chk.expect(len(runs[2][1]) == len(r), "as many matches as the configured minimum are not accepted", minimum=len(r), got=len(runs[2][1]))
                        chk.expect(len(runs[3][1]) == 0, "fewer matches than the configured minimum are accepted", minimum=len(r) + 1, got=len(runs[3][1]))
                        chk.count("minima at the number of matches")
                ok, r = chk.guard(lambda: matching.match(a, b, cam[a], cam[b], data, {}, None), "match")
                if ok and len(r) >= 20 and matcher != "FLANN":
                    runs = [chk.guard(lambda: matching.match(a, b, cam[a], cam[b], data, {"robust_matching_min_match": v}, None), "match with a minimum")
                            for v in (20, len(r), len(r) + 1)]
                    if all(x[0] for x in runs) and len(runs[0][1]) == len(r):
                        chk.expect(len(runs[1][1]) == len(r), "as many matches as the configured minimum are not accepted", minimum=len(r), got=len(runs[1][1]))
                        chk.expect(len(runs[2][1]) == 0, "fewer matches than the configured minimum are accepted", minimum=len(r) + 1, got=len(runs[2][1]))
            keep = [np.flatnonzero(feature_loader.instance.load_mask(data, im)) for im in (a, b)]
            inv = [{int(v): k for k, v in enumerate(x)} for x in keep]
            try:
                mm = [(inv[0][int(x)], inv[1][int(y)]) for x, y in m]
            except KeyError:
                chk.violation("match_descriptors returns a feature its mask removes")
                mm = None
            if mm is not None:
                ok, r = chk.guard(lambda: matching.match_robust(a, b, mm, cam[a], cam[b], data, {}), "match_robust")
                if ok:
                    judge(a, b, r, "match_robust (masked indices)")
        ok, r = chk.guard(lambda: matching.match(a, b, cam[a], cam[b], data, {}, None), "match")
        if ok:
            judge(a, b, r, "match")
        ok, r = chk.guard(lambda: matching.match(a, b, cam[a], cam[b], data, {"robust_matching_min_match": 100000}, None), "match")
        chk.expect(not ok or len(r) == 0, "match: fewer matches than the configured minimum are returned")
        poses = {im: S.pose(im) for im in ims}
        ok, r = chk.guard(lambda: matching.match_images_with_pairs(data, {}, {im: data.load_exif(im) for im in ims}, [(a, b)], poses), "guided matching")
        if ok:
            judge(a, b, r[a, b], "guided matching", complete=False)
            # pairs whose two features have several candidates near their epipolar planes must be found
            Rab, tab = S.shots[a]["R"] @ S.shots[b]["R"].T, S.shots[a]["R"] @ (S.origin(b) - S.origin(a))
            bear = {im: np.array(cam[im].pixel_bearing_many(np.ascontiguousarray(data.load_features(im).points[:, :2].astype(float)))) for im in (a, b)}
            ka, kb = np.flatnonzero(stored[a]), np.flatnonzero(stored[b])
            near = np.array([epipolar_angles(np.repeat(bear[a][[x]], len(kb), 0), bear[b][kb], Rab, tab) for x in ka]) < 0.0025
            many = {(x, y) for x, y in truth[a, b] if near[ka == x].sum() > 1 and near[:, kb == y].sum() > 1}
            found = {tuple(int(v) for v in x) for x in r[a, b]}
            if len(many) >= 40:
                chk.expect(len(found & many) >= 0.9 * len(many), "guided matching: true matches are missing", found=len(found & many), of=len(many))
                chk.count("guided completeness judged")
            chk.count("guided matches compared", len(r[a, b]))
        # the whole step
        ref, cand = (ims, ims) if rng.random() < 0.5 else (ims[:2], ims)
        ok, r = chk.guard(lambda: matching.match_images(data, {}, ref, cand), "match_images")
        if ok:
            pairs = r[0]
            want = {frozenset((x, y)) for x in ref for y in cand if x != y}
            chk.expect({frozenset(k) for k in pairs} == want and len(pairs) == len(want), "matched pairs", got=sorted(pairs))
            for (x, y), m in pairs.items():
                judge(x, y, m, "match_images")
            ok, _ = chk.guard(lambda: matching.save_matches(data, ref, pairs), "save_matches")
            if ok:
                for im in ref:
                    for other, m in data.load_matches(im).items():
                        src = pairs.get((im, other))
                        src = src if src is not None else np.array([(y, x) for x, y in pairs[other, im]])
                        judge(im, other, m, "stored matches")
                        chk.expect(len(src) == len(m), "stored matches differ from the computed ones", pair=(im, other))
                stored_pairs = [frozenset((im, o)) for im in ref for o in data.load_matches(im)]
                chk.expect(len(stored_pairs) == len(set(stored_pairs)) and set(stored_pairs) == want, "every matched pair is stored once")
            # pairs may name the image that stores them first or second
            own = [im for im in ims if rng.random() < 0.6] or [ims[0]]
            turned = {}
            for x, y in pairs:
                if x in own or y in own:
                    m = np.asarray(pairs[x, y]).reshape(-1, 2)
                    turned.update({(x, y): m} if rng.random() < 0.5 else {(y, x): m[:, ::-1]})
            ok, _ = chk.guard(lambda: matching.save_matches(data, own, turned), "save_matches of turned pairs")
            if ok:
                chk.count("turned pairs stored", len(turned))
                held = [(im, o) for im in own for o in data.load_matches(im)]
                chk.expect(sorted(map(sorted, held)) == sorted(map(sorted, turned)), "stored pairs differ from the given ones", got=held, given=list(turned))
                for im, o in held:
                    m = turned[im, o] if (im, o) in turned else turned[o, im][:, ::-1]
                    chk.expect(np.array_equal(np.asarray(data.load_matches(im)[o]).reshape(-1, 2), m), "stored matches do not start with the image that stores them",
                               image=im, other=o, given="%s first" % (im if (im, o) in turned else o))
            chk.guard(lambda: matching.save_matches(data, ref, pairs), "save_matches")
        feature_loader.instance.clear_cache()


def configured(chk, rng):
    """The matcher the configuration names, on stored features: few features, either symmetry."""
    from opensfm import dataset, feature_loader, features, matching

    root = os.path.join(chk.tmp, "configured")
    S = scenes.make(rng, ("perspective",), shots=2, points=40, layout="line", strength=0.0)
    data = S.dataset(root, {"processes": 1})
    a, b = list(S.shots)
    cams = data.load_camera_models()
    ca, cb = (cams[S.shots[im]["cam"]] for im in (a, b))
    for i in range(chk.n(60, 900)):
        n = {im: int(rng.choice([0, 1, 2, 3, 8, 30])) for im in (a, b)}
        dim, ratio = int(rng.choice([4, 32])), float(rng.choice([0.8, 0.95, 0.6]))
        d = {im: rng.integers(0, 256, (n[im], dim)).astype(np.float32) for im in (a, b)}  # stored as bytes
        for k in range(min(n.values())):
            if rng.random() < 0.6:
                d[b][k] = np.clip(d[a][rng.integers(n[a])] + rng.integers(-20, 21, dim), 0, 255)
        for im in (a, b):
            pts = np.concatenate([rng.uniform(-0.3, 0.3, (n[im], 2)), np.full((n[im], 2), 0.01)], 1)
            data.save_features(im, features.FeaturesData(pts, d[im], np.zeros((n[im], 3), int), None))
            data.save_words(im, np.zeros((n[im], 1), np.int32))
        matcher, sym = str(rng.choice(["BRUTEFORCE", "WORDS", "bruteforce"])), bool(rng.random() < 0.5)
        cfg = {"matcher_type": matcher, "symmetric_matching": sym, "lowes_ratio": ratio, "bow_num_checks": 10**6, "matching_use_segmentation": False}
        feature_loader.instance.clear_cache()
        chk.case("configured matcher", {"matcher": matcher, "symmetric": sym, "features": list(n.values()), "ratio": ratio}, sig=(chk.shard, i))
        ok, m = chk.guard(lambda: matching.match_descriptors(a, b, ca, cb, data if i % 2 else dataset.DataSet(root), cfg), "match_descriptors")
        if not ok:
            continue
        if min(n.values()) < 2:
            chk.expect(len(m) == 0, "an image with less than two features is matched", features=n)
            continue
        D = dist_matrix(d[a], d[b])
        sure, maybe = ratio_pairs(D, ratio)
        if sym:
            sure2, maybe2 = ratio_pairs(D.T, ratio)
            back, mback = {(x, y) for y, x in sure2}, {(x, y) for y, x in maybe2}
            sure, maybe = sure & back, (sure | maybe) & (back | mback)
        agree(chk, m, sure, maybe, "matching with the configured matcher", matcher=matcher, symmetric=sym, features=list(n.values()))
        chk.count("configured matchers compared")
    feature_loader.instance.clear_cache()


def filters(chk, rng):
    """Documented ad-hoc filters: static matches, panorama poles, watermarks."""
    from opensfm import matching, pygeometry

    class Data:
        def __init__(self, meta):
            self.meta = meta

        def load_exif(self, im):
            return self.meta[im]

    for i in range(chk.n(120, 2000)):
        n = int(rng.integers(1, 60))
        p1, p2 = rng.uniform(-0.3, 0.3, (2, n, 3))
        frac = rng.choice([0.0, 0.3, 0.8, 0.95, 1.0])
        st = rng.random(n) < frac
        p2[st] = p1[st]
        cams = [gen.make_camera(scenes.camera(rng, str(m)), "c") for m in rng.choice(["perspective", "spherical", "fisheye"], 2)]
        meta = {im: {"make": str(mk), "model": str(mk)} for im, mk in zip("ab", rng.choice(["VTrans_Camera", "BlackVue", "blackvue", "other"], 2))}
        other = rng.permutation(n)  # the second image numbers its features its own way
        m = [(k, int(other[k])) for k in range(n)]
        if rng.random() < 0.5:
            m = [x for x in m if rng.random() < 0.6] or m
        q2 = np.empty_like(p2)
        q2[other] = p2
        chk.case("filters", {"n": n, "static": float(frac), "makes": [meta[x]["make"] for x in "ab"]}, sig=(chk.shard, i))
        ok, got = chk.guard(lambda: matching.apply_adhoc_filters(Data(meta), list(m), "a", cams[0], p1, "b", cams[1], q2), "ad-hoc filters")
        if not ok:
            continue
        moving = [k for k, _ in m if np.hypot(*(p1[k] - p2[k])[:2]) >= 0.001]
        keep = [k for k, _ in m] if 1 - len(moving) / len(m) > 0.85 else moving
        for p, c, im in ((p1, cams[0], "a"), (p2, cams[1], "b")):
            if pygeometry.Camera.is_panorama(c.projection_type):
                keep = [k for k in keep if -0.125 < p[k][1] < 0.125]
            if meta[im]["make"] == "VTrans_Camera":
                keep = [k for k in keep if p[k][1] > -0.255]
            if meta[im]["make"].lower() == "blackvue":
                keep = [k for k in keep if p[k][1] < 0.263]
        chk.expect([tuple(x) for x in got] == [(k, int(other[k])) for k in keep], "ad-hoc filters", kept=len(got), expected=len(keep))
        chk.count("filters compared")


def run(chk):
    rng = chk.rng_for("c14")
    matchers(chk, rng)
    configured(chk, rng)
    filters(chk, rng)
    degenerate(chk, rng)
    robust(chk, rng)
    pipeline(chk, rng)
