"""C23: splitting into submodels and merging them back is lossless."""
import json
import os

import cv2
import numpy as np

import gen
import scenes
from checks import c18, c19


class Rate:
    """Adjustments may stop early once in a while, but not repeatedly."""

    def __init__(self):
        self.ok = {}

    def add(self, key, good):
        a, b = self.ok.get(key, (0, 0))
        self.ok[key] = (a + bool(good), b + 1)

    def judge(self, chk):
        for key, (a, b) in self.ok.items():
            chk.extreme("share failed: " + key, 1 - a / b)
            chk.count("judged: " + key, b)
            chk.expect(b - a <= 1 + b // 50, key + ": not so repeatedly", right=a, of=b)


SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["splits judged", "images split", "images without GPS", "splits by groups", "neighbors judged", "neighbors added", "submodels judged", "files of submodels compared", "splits with a list of masks", "lists of splits judged",
            "splits repeated", "images listed elsewhere", "alignments judged", "shared cameras", "aligned reconstructions"]
RULE = ("one case = one dataset (random positions, sizes, overlaps, groups, data of all kinds) split by the action, or the reconstructions of its submodels, moved differently, "
        "aligned by the action; memberships are recomputed from geodetic positions; non-trivial = at least two submodels")
ASSUMPTIONS = ["distances within 1 % of the overlap are not judged", "every image with GPS is in a group when groups are given",
               "joint alignments may stop before convergence, but not repeatedly"]


def ecef(lat, lon):
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    la, lo = np.radians(lat), np.radians(lon)
    n = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
    return np.stack([n * np.cos(la) * np.cos(lo), n * np.cos(la) * np.sin(lo), n * (1 - e2) * np.sin(la)], -1)


def tree(root):
    """Contents of everything in a folder, and where links lead."""
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files + [x for x in dirs if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else ("file", open(p, "rb").read())
    return out


def positions(rng, n):
    """Images somewhere on the Earth, in meters around it."""
    lat0 = float(rng.uniform(-75, 75))
    lon0 = float(rng.uniform(-179, 179))
    size = float(np.exp(rng.uniform(np.log(20), np.log(20000))))
    kind = str(rng.choice(["square", "line", "blobs", "grid", "repeated"]))
    if kind == "square":
        p = rng.uniform(-size, size, (n, 2))
    elif kind == "line":
        p = np.stack([np.linspace(-size, size, n), rng.normal(size=n) * 0.02 * size], 1)
    elif kind == "blobs":
        p = rng.uniform(-size, size, (4, 2))[rng.integers(4, size=n)] + rng.normal(size=(n, 2)) * 0.1 * size
    elif kind == "grid":
        k = int(np.ceil(np.sqrt(n)))
        p = np.stack(np.meshgrid(np.arange(k), np.arange(k)), -1).reshape(-1, 2)[:n] * size / k
    else:
        p = rng.uniform(-size, size, (max(3, n // 3), 2))[rng.integers(max(3, n // 3), size=n)]
    lat = lat0 + p[:, 1] / 111000
    lon = lon0 + p[:, 0] / (111000 * np.cos(np.radians(lat0)))
    return lat, lon, size, kind


def splits(chk, rng):
    from opensfm import dataset
    from opensfm.actions import create_submodels
    from opensfm.large import metadataset
    import yaml

    for n in range(chk.n(72, 800)):
        count = int(rng.choice([1, 2, 5, 12, 25, 40]))
        lat, lon, size, kind = positions(rng, count)
        names = ["%s %02d.jpg" % (rng.choice(["a", "IMG", "é"]), k) if rng.random() < 0.1 else "im%02d.jpg" % k for k in range(count)]
        order = rng.permutation(count)
        gps = np.array([rng.random() > rng.choice([0, 0, 0.15]) for _ in names])
        gps[0] = True
        overlap = float(np.exp(rng.uniform(np.log(0.02), np.log(0.7)))) * size
        config = {"submodel_size": int(rng.choice([3, 7, 10, 80])), "submodel_overlap": overlap}
        if rng.random() < 0.2:
            config.update(submodels_relpath="parts", submodel_relpath_template="parts/p%02d", submodel_images_relpath_template="parts/p%02d/images")
        grouped = rng.random() < 0.4
        elsewhere = rng.random() < 0.2
        what = dict(config, images=count, gps=int(gps.sum()), kind=kind, extent=size, lat=float(lat[0]), lon=float(lon[0]), grouped=grouped, elsewhere=elsewhere)
        chk.case("split", what, sig=(chk.shard, n))
        base = os.path.join(chk.tmp, "split%d" % n)
        root = os.path.join(base, "data")
        os.makedirs(os.path.join(root, "images"))
        with open(os.path.join(root, "config.yaml"), "w") as f:
            yaml.safe_dump(dict({"processes": 1}, **config), f)
        folder = os.path.join(root, "images")
        if elsewhere:
            folder = os.path.join(base, "pictures")
            os.makedirs(folder)
            chk.count("images listed elsewhere")
        for k in names:
            with open(os.path.join(folder, k), "wb") as f:
                f.write(b"picture " + k.encode())
        if elsewhere:
            with open(os.path.join(root, "image_list.txt"), "w") as f:
                f.write("\n".join(os.path.join("..", "pictures", k) if rng.random() < 0.5 else os.path.join(folder, k) for k in names) + "\n")
        data = dataset.DataSet(root)
        exifs = {}
        for k in order:
            e = {"width": 10, "height": 10, "camera": "c", "gps": {}, "skey": str(k)}
            if gps[k]:
                e["gps"] = {"latitude": float(lat[k]), "longitude": float(lon[k]), "altitude": float(rng.uniform(0, 100)), "dop": 1.0}
            elif rng.random() < 0.5:
                del e["gps"]
            data.save_exif(names[k], e)
            exifs[names[k]] = e
        some = {"features": "%s.features.npz", "matches": "%s_matches.pkl.gz", "masks": "%s.png", "segmentations": "%s.png"}
        given = [d for d in some if rng.random() < 0.6]
        for d in given:
            os.makedirs(os.path.join(root, d), exist_ok=True)
            for k in names:
                with open(os.path.join(root, d, some[d] % k), "wb") as f:
                    f.write((d + k).encode())
        masked = {}
        if rng.random() < 0.35:
            # a list of masks, which may be anywhere
            away = str(rng.choice(["masks", "other", os.path.join("..", "other masks")]))
            os.makedirs(os.path.join(root, away), exist_ok=True)
            for j, k in enumerate(names):
                if " " not in k and rng.random() < 0.7:
                    masked[k] = np.full((4, 5), 1 + j, np.uint8)
                    io_file = os.path.join(root, away, "of %d.png" % j)
                    open(io_file, "wb").write(cv2.imencode(".png", masked[k])[1].tobytes())
            with open(os.path.join(root, "mask_list.txt"), "w") as f:
                for k in masked:
                    f.write("%s %s\n" % (k, os.path.join(away, "of %d.png" % names.index(k))))
            chk.count("splits with a list of masks")
        has_list = os.path.exists(os.path.join(root, "mask_list.txt"))
        single = []
        for f_ in ("camera_models.json", "reports/features.json", "reports/matches.json", "reports/features/x.json"):
            if rng.random() < 0.6:
                os.makedirs(os.path.dirname(os.path.join(root, f_)), exist_ok=True)
                with open(os.path.join(root, f_), "w") as f:
                    f.write(json.dumps({"file": f_}))
                single.append(f_)
        groups = None
        if grouped:
            groups = {k: "ABCDE"[rng.integers(5)] for k in names if " " not in k or True}
            if any(" " in k for k in names):
                grouped, groups = False, None
            else:
                with open(os.path.join(root, "image_groups.txt"), "w") as f:
                    for k in rng.permutation(names):
                        f.write("%s %s\n" % (k, groups[k]))
                chk.count("splits by groups")
        before = tree(root)
        first = None
        for again in range(2 if n % 3 == 0 else 1):
            data = dataset.DataSet(root)
            ok, _ = chk.guard(lambda: create_submodels.run_dataset(data), "create submodels", **what)
            if not ok:
                break
            if again:
                chk.count("splits repeated")
            chk.count("splits judged")
            chk.count("images split", int(gps.sum()))
            chk.count("images without GPS", int((~gps).sum()))
            after = tree(root)
            rel = config.get("submodels_relpath", "submodels")
            changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k) and not k.startswith(rel + "/")} - {"reference_lla.json", "profile.log"}
            chk.expect(not changed, "splitting changes other files of the dataset", files=sorted(changed)[:5], **what)
            meta = metadataset.MetaDataSet(root)
            mine = {k: (lat[i], lon[i]) for i, k in enumerate(names) if gps[i]}
            listed = list(meta.images_with_gps())
            chk.expect(len(listed) == len(mine) and all(k in mine and (a, b) == mine[k] for k, a, b in listed), "the list of images with GPS", got=listed[:3], **what)
            images, pos, labels, centers = meta.load_clusters()
            images = [str(k) for k in images]
            chk.expect(sorted(images) == sorted(mine), "images of the clusters", **what)
            K = len(centers)
            if groups is None:
                chk.expect(K == int(np.ceil(len(mine) / config["submodel_size"])), "number of clusters", got=K, want=len(mine) / config["submodel_size"], **what)
            else:
                chk.expect(K == len({groups[k] for k in mine}), "number of clusters of groups", got=K, **what)
                g = {}
                for k, l in zip(images, labels):
                    g.setdefault(int(l), set()).add(groups[k])
                chk.expect(all(len(v) == 1 for v in g.values()) and len({min(v) for v in g.values()}) == len(g), "clusters do not follow the groups", **what)
            chk.expect(len(labels) == len(images) and set(labels.tolist()) <= set(range(K)), "labels of the clusters", **what)
            distinct = len(set(mine.values()))
            if groups is None and K <= distinct:
                chk.expect(set(labels.tolist()) == set(range(K)), "an empty cluster", **what)
            LL = np.array([mine[k] for k in images])
            if groups is None:
                # every image is in the cluster with the nearest center
                o = LL.mean(0)
                d = np.linalg.norm((LL - o)[:, None] - (np.asarray(centers, float) - o)[None], axis=-1)
                own = d[np.arange(len(LL)), labels]
                chk.expect((own <= d.min(1) * (1 + 1e-3) + 1e-3 * np.ptp(LL, axis=0).max() + 1e-9).all(), "an image is not in the nearest cluster", worst=float((own - d.min(1)).max()), **what)
            # neighbors
            E = ecef(LL[:, 0], LL[:, 1])
            D = np.linalg.norm(E[:, None] - E[None], axis=-1)
            clusters = [[str(k) for k in c] for c in meta.load_clusters_with_neighbors()]
            if not chk.expect(len(clusters) == K, "number of clusters with neighbors", got=len(clusters), want=K, **what):
                break
            for l in range(K):
                inside = labels == l
                near = D[:, inside].min(1) if inside.any() else np.full(len(LL), np.inf)
                must = {images[i] for i in np.nonzero(inside | (near < overlap * 0.99))[0]}
                may = {images[i] for i in np.nonzero(inside | (near < overlap * 1.01))[0]}
                got = set(clusters[l])
                chk.count("neighbors judged", len(images))
                chk.count("neighbors added", len(got) - int(inside.sum()))
                chk.expect(len(got) == len(clusters[l]), "a submodel lists an image twice", **what)
                chk.expect(must <= got, "a submodel lacks images within the overlap", missing=sorted(must - got)[:3], **what)
                chk.expect(got <= may, "a submodel has images beyond the overlap", extra=sorted(got - may)[:3], **what)
            for name, want in (("clusters.geojson", [(k, int(l)) for k, l in zip(images, labels)]),
                               ("clusters_with_neighbors.geojson", [(k, l) for l, c in enumerate(clusters) for k in c])):
                fs = json.load(open(os.path.join(root, rel, name)))["features"]
                got = sorted((f["properties"]["name"], f["properties"]["submodel"]) for f in fs)
                chk.expect(got == sorted(want), "members in %s" % name, **what)
                chk.expect(all(tuple(f["geometry"]["coordinates"]) == (mine[f["properties"]["name"]][1], mine[f["properties"]["name"]][0]) for f in fs), "positions in %s" % name, **what)
            # directories
            paths = meta.get_submodel_paths()
            there = sorted(d for d in os.listdir(os.path.join(root, rel)) if os.path.isdir(os.path.join(root, rel, d)))
            chk.expect(len(paths) == K and there == sorted(os.path.basename(p) for p in paths), "folders of submodels", got=there, want=K, **what)
            for path, members in zip(paths, clusters):
                chk.count("submodels judged")
                sub = dataset.DataSet(path)
                chk.expect(sorted(sub.images()) == sorted(members), "images of a submodel", got=sorted(sub.images())[:3], want=sorted(members)[:3], **what)
                chk.expect({k: v for k, v in sub.config.items()} == {k: v for k, v in data.config.items()}, "configuration of a submodel", **what)
                ref = sub.load_reference()
                ref0 = dataset.DataSet(root).load_reference()
                chk.expect((ref.lat, ref.lon, ref.alt) == (ref0.lat, ref0.lon, ref0.alt), "reference of a submodel", **what)
                for k in members:
                    chk.expect(sub.open_image_file(k).read() == b"picture " + k.encode(), "content of an image of a submodel", image=k, **what)
                    chk.expect(sub.load_exif(k) == exifs[k], "metadata of an image of a submodel", image=k, **what)
                    for d in given:
                        chk.count("files of submodels compared")
                        p = os.path.join(path, d, some[d] % k)
                        chk.expect(os.path.isfile(p) and open(p, "rb").read() == (d + k).encode(), "%s of a submodel" % d, image=k, **what)
                for d in some:
                    chk.expect(d in given or (d == "masks" and has_list) or not os.path.exists(os.path.join(path, d)), "%s of a submodel exist although the dataset has none" % d, **what)
                for f_ in single:
                    p = os.path.join(path, f_)
                    chk.expect(os.path.isfile(p) and json.load(open(p)) == {"file": f_}, "%s of a submodel" % f_, **what)
                if has_list:
                    for k in members:
                        ok, got = chk.guard(lambda: sub.load_mask(k), "loading a mask of a submodel", image=k, **what)
                        if ok:
                            chk.expect((got is None) == (k not in masked) and (got is None or np.array_equal(got, masked[k])), "listed mask of a submodel", image=k, **what)
                elif sub.images() and "masks" in given:
                    k = members[0]
                    chk.expect(k in sub.mask_files, "mask of a submodel", image=k, **what)
                # results of a submodel stay in it
                with open(os.path.join(path, "tracks.csv"), "w") as f:
                    f.write("x")
            # a second split starts afresh, possibly with other parameters
            if n % 3 == 0 and not again:
                config["submodel_size"] = int(rng.choice([3, 7, 10, 80]))
                with open(os.path.join(root, "config.yaml"), "w") as f:
                    yaml.safe_dump(dict({"processes": 1}, **config), f)
                before = tree(root)
                before = {k: v for k, v in before.items() if not k.startswith(rel + "/")}
                what = dict(what, **config)
            elif again:
                for path in paths:
                    pass
        # nothing of the first split is left
        import shutil

        shutil.rmtree(base)


def aligned(chk, rng):
    from opensfm import dataset, types
    from opensfm.actions import align_submodels, create_submodels
    from opensfm.large import metadataset, tools
    import yaml

    rate = Rate()
    for n in range(chk.n(40, 480)):
        S = scenes.make(rng, ["perspective"], int(rng.integers(8, 16)), int(rng.choice([60, 160])), str(rng.choice(["line", "nadir", "ring"])), 0.3, names="im%02d.jpg")
        noise = float(rng.choice([0, 0, 0.05]))
        strength = float(rng.choice([0.3, 1.0, 2.0]))
        origins = np.array([S.origin(s) for s in S.shots])
        extent = np.linalg.norm(origins - origins.mean(0), axis=1).max()
        config = {"submodel_size": int(rng.choice([4, 6])), "submodel_overlap": float(rng.choice([0.5, 0.8]) * extent), "processes": 1}
        what = dict(config, shots=len(S.shots), layout=S.layout, noise=noise, strength=strength)
        chk.case("alignment", what, sig=(chk.shard, n))
        root = os.path.join(chk.tmp, "align%d_%d" % (chk.shard, n))
        data = S.dataset(root, config)
        ok, _ = chk.guard(lambda: create_submodels.run_dataset(dataset.DataSet(root)), "create submodels", **what)
        if not ok:
            continue
        meta = metadataset.MetaDataSet(root)
        paths = meta.get_submodel_paths()
        G = {s: S.origin(s) + noise * rng.normal(size=3) for s in S.shots}
        before, total = {}, 0
        skip = rng.random() < 0.15
        member = {}
        for i, path in enumerate(paths):
            names = sorted(dataset.DataSet(path).images())
            if len(names) < 3 or (skip and i == 1):
                continue
            # one or two reconstructions of a submodel
            pieces = [names]
            if len(names) >= 8 and rng.random() < 0.25:
                pieces = [names[: len(names) // 2 + 2], names[len(names) // 2 - 2 :]]
            recs, tms = [], None
            for j, piece in enumerate(pieces):
                # near the truth, as the georeferencing leaves them
                f = (float(np.exp(rng.normal() * 0.03 * strength)), gen.rodrigues(rng.normal(size=3) * 0.03 * strength), rng.normal(size=3) * 0.03 * strength * extent)
                c = np.mean([S.origin(s) for s in piece], axis=0)
                f = (f[0], f[1], c - f[0] * f[1] @ c + f[2])
                rename = (lambda k, j=j, i=i: "%d_%d_%d" % (i, j, k))
                rec, tm = c19.part(rng, S, f, piece, rename)
                for s in piece:
                    rec.shots[s].metadata.gps_position.value = G[s]
                    rec.shots[s].metadata.gps_accuracy.value = float(rng.choice([0.5, 1.0]))
                recs.append(rec)
                tms = tm if tms is None else merge_tracks(tms, tm)
                before[path, j] = (f, piece, rename)
                member[path, j] = piece
            sub = dataset.DataSet(path)
            sub.save_reconstruction(recs)
            sub.save_tracks_manager(tms)
        if not before:
            continue
        files0 = tree(root)
        ok, _ = chk.guard(lambda: align_submodels.run_dataset(dataset.DataSet(root)), "align submodels", **what)
        if not ok:
            continue
        chk.count("alignments judged")
        files1 = tree(root)
        changed = sorted(k for k in set(files0) | set(files1) if files0.get(k) != files1.get(k))
        chk.expect(all(os.path.basename(k) in ("reconstruction.aligned.json", "profile.log") for k in changed), "aligning changes other files", files=changed[:5], **what)
        where = {}
        worst = 0
        for path in sorted({p for p, _ in before}):
            sub = dataset.DataSet(path)
            ok, recs = chk.guard(lambda: sub.load_reconstruction("reconstruction.aligned.json"), "load an aligned reconstruction", **what)
            first = sub.load_reconstruction()
            if not ok or not chk.expect(len(recs) == len(first), "number of aligned reconstructions", got=len(recs), want=len(first), **what):
                continue
            for j, rec in enumerate(recs):
                chk.count("aligned reconstructions")
                f, piece, rename = before[path, j]
                chk.expect(set(rec.shots) == set(piece) and set(rec.points) == set(first[j].points) and set(rec.cameras) == set(first[j].cameras), "members of an aligned reconstruction", **what)
                # one similarity moved all of it
                P0 = np.array([first[j].shots[s].pose.get_origin() for s in piece] + [first[j].points[k].coordinates for k in first[j].points])
                P1 = np.array([rec.shots[s].pose.get_origin() for s in piece] + [rec.points[k].coordinates for k in first[j].points])
                s_, A, b = umeyama(P0, P1)
                gap = np.abs(s_ * P0 @ A.T + b - P1).max()
                chk.extreme("difference from one similarity", gap / extent)
                chk.expect(gap < 1e-5 * extent, "an aligned reconstruction is not a moved copy", worst=float(gap), **what)
                for s in piece:
                    R0, R1 = first[j].shots[s].pose.get_rotation_matrix(), rec.shots[s].pose.get_rotation_matrix()
                    chk.expect(np.abs(R0 @ A.T - R1).max() < 1e-4, "an aligned camera is not turned with its reconstruction", shot=s, worst=float(np.abs(R0 @ A.T - R1).max()), **what)
                    where.setdefault(s, []).append((rec.shots[s].pose.get_origin(), R1, S.origin(s), S.shots[s]["R"]))
        # shared cameras
        shared = [v for v in where.values() if len(v) > 1]
        chk.count("shared cameras", len(shared))
        if shared:
            gap = np.mean([np.linalg.norm(a[0] - b[0]) for v in shared for a in v for b in v if a is not b])
            turn = np.mean([np.abs(a[1] - b[1]).max() for v in shared for a in v for b in v if a is not b])
            chk.extreme("distance between shared cameras" + (" (noise)" if noise else ""), gap / extent)
            rate.add("shared cameras coincide", gap < max(0.001 * extent, 2 * noise) and turn < 0.002 + noise)
        if not noise:
            gap = np.mean([np.linalg.norm(a[0] - a[2]) for v in where.values() for a in v])
            chk.extreme("distance to the truth", gap / extent)
            rate.add("aligned cameras are where they were taken", gap < 0.001 * extent)
        import shutil

        shutil.rmtree(root)
    rate.judge(chk)


def merge_tracks(a, b):
    from opensfm import pymap

    # tracks of different reconstructions have different names
    out = pymap.TracksManager()
    for tm in (a, b):
        for s in tm.get_shot_ids():
            for t, o in tm.get_shot_observations(s).items():
                out.add_observation(s, t, o)
    return out


def umeyama(A, B):
    ca, cb = A.mean(0), B.mean(0)
    U, s, V = np.linalg.svd((B - cb).T @ (A - ca))
    D = np.diag([1, 1, np.sign(np.linalg.det(U @ V))])
    R = U @ D @ V
    k = (s * np.diag(D)).sum() / ((A - ca) ** 2).sum()
    return k, R, cb - k * R @ ca


def types_of_constraints(chk, rng):
    """Both kinds of camera constraints bring moved copies back."""
    from opensfm.large import tools

    rate = Rate()
    for n in range(chk.n(200, 1200)):
        S = scenes.make(rng, ["perspective"], int(rng.integers(6, 12)), 30, str(rng.choice(["line", "nadir", "ring"])), 0.3)
        kind = ["soft_camera_constraint", "hard_camera_constraint"][n % 2]
        names = list(S.shots)
        origins = np.array([S.origin(s) for s in names])
        extent = np.linalg.norm(origins - origins.mean(0), axis=1).max()
        shots, F, keep = {}, {}, []
        for j in range(int(rng.integers(1, 4))):
            piece = [s for s in names if rng.random() < 0.7]
            if len(piece) < 4:
                piece = names
            # GPS alone leaves a part with two images free to turn about the line between them
            if n % 4 > 1:
                piece = names[:2] if j else names
            f = (float(np.exp(rng.normal() * 0.1)), gen.rodrigues(rng.normal(size=3) * 0.1), rng.normal(size=3) * 0.2)
            rec, _ = c19.part(rng, S, f, piece, str)
            key = tools.PartialReconstruction("/nowhere/%d" % j, j)
            keep.append(rec)
            shots[key], F[key] = rec.shots, f
        chk.case("constraints", {"kind": kind, "parts": len(shots)}, sig=(chk.shard, n))
        ok, res = chk.guard(lambda: tools.align_reconstructions(shots, tools.partial_reconstruction_name, False, kind), "align reconstructions", kind=kind)
        if not ok:
            continue
        chk.count("constraint types")
        chk.expect(set(res) == set(shots), "transformations of other reconstructions")
        for key in res:
            g = c19.inverse(F[key])
            c = c19.at(F[key], origins.mean(0))
            s, A, b = res[key]
            gap = np.abs(s * np.asarray(A) @ c + np.asarray(b) - c19.at(g, c)).max() / extent + np.abs(A - g[1]).max() + abs(s / g[0] - 1)
            chk.extreme("transformation by " + kind, gap)
            rate.add(kind, gap < 0.001)
    rate.judge(chk)


def stored(chk, rng):
    """The lists of the split are read back as they were saved."""
    from opensfm.large import metadataset

    for n in range(chk.n(40, 800)):
        root = os.path.join(chk.tmp, "meta%d" % n)
        os.makedirs(root)
        m = metadataset.MetaDataSet(root)
        names = ["%s%d.jpg" % (rng.choice(["a", "B c", "é", "x.y", "日"]), k) for k in range(int(rng.integers(1, 30)))]
        clusters = [[names[i] for i in rng.permutation(len(names))[:int(rng.integers(0, len(names) + 1))]] for _ in range(int(rng.integers(1, 6)))]
        chk.case("lists of a split", {"images": len(names), "clusters": [len(c) for c in clusters]}, sig=(chk.shard, n))
        m.save_clusters_with_neighbors(clusters)
        got = m.load_clusters_with_neighbors()
        chk.expect([list(map(str, c)) for c in got] == clusters, "clusters with neighbors are not read as saved", got=[len(c) for c in got], want=[len(c) for c in clusters])
        ills = [(k, float(rng.uniform(-90, 90)), float(rng.uniform(-180, 180))) for k in names]
        m.create_image_list(ills)
        chk.expect(m.image_list_exists() and list(m.images_with_gps()) == ills, "list of images is not read as saved")
        lab = rng.integers(0, 4, len(names))
        pos, cen = rng.normal(0, 50, (len(names), 2)), rng.normal(0, 50, (4, 2))
        m.save_clusters(np.array(names), pos, lab, cen)
        a, b, c, d = m.load_clusters()
        chk.expect(list(map(str, a)) == names and np.array_equal(b, pos) and np.array_equal(c, lab) and np.array_equal(d, cen), "clusters are not read as saved")
        K = int(rng.integers(1, 25))
        for k in range(K):
            os.makedirs(os.path.join(root, "submodels", "submodel_%04d" % k))
        chk.expect([os.path.basename(p) for p in m.get_submodel_paths()] == ["submodel_%04d" % k for k in range(K)], "folders of submodels", got=len(m.get_submodel_paths()), want=K)
        chk.count("lists of splits judged")


def run(chk):
    stored(chk, chk.rng_for("stored"))
    splits(chk, chk.rng_for("splits"))
    aligned(chk, chk.rng_for("aligned"))
    types_of_constraints(chk, chk.rng_for("constraints"))
