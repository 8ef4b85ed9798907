"""C31: ground control points and GPS logs are read as documented."""
import copy
import datetime
import io as pyio
import json
import math
import os
import shutil
import sys
import types

import numpy as np

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 300, "thorough": 850}
REQUIRED = ["text files read", "points of text files compared", "points without altitude", "observations of unknown images", "observations compared", "points seen in several images", "projected files", "comment lines",
            "JSON files read", "points written and read", "datasets with both files", "times interpolated", "times outside of the log", "logs sampled", "logs read", "pictures tagged by time", "pictures outside of the log", "pictures tagged", "annotation histories", "control point errors of the annotation tool compared"]
RULE = ("one case = one control point file (random projection header, spacing, comments, repeated and unknown images, missing altitudes); one set of points written and read; one GPS log with its interpolated and resampled positions; one GPS log read and written to pictures through stand-ins for gpxpy and pyexiv2; "
        "or one history of the annotation tool; non-trivial when there is a point")
ASSUMPTIONS = ["names of images in text files have no spaces", "logs do not cross the antimeridian", "EPSG codes are only used for systems whose first axis points east", "data lines are well formed"]


def number(rng, x):
    """A decimal text of x, and what it says."""
    k = int(rng.integers(4))
    s = [repr(float(x)), "%.9f" % x, "%.12e" % x, "%+.7f" % x][k]
    return s, float(s)


def systems(rng):
    """A random projection header, whether positions are (lon, lat), and the projection."""
    import pyproj

    k = int(rng.integers(9))
    south = bool(rng.random() < 0.4)
    zone = int(rng.integers(1, 61))
    lon0 = zone * 6 - 183
    lat, lon = float(rng.uniform(-75, -1) if south else rng.uniform(1, 75)), lon0 + float(rng.uniform(-2.9, 2.9))
    where = (lat, lon)
    if k <= 1:
        return "WGS84", None, (float(rng.uniform(-89, 89)), float(rng.uniform(-179.9, 179.9)))
    if k <= 3:
        head = "WGS84 UTM %d%s" % (zone, "S" if south else "N")
        if not south and rng.random() < 0.2:
            head = "WGS84 UTM %d" % zone
        if rng.random() < 0.3:
            head = head.lower()
        code = (32700 if south else 32600) + zone
    elif k == 4:
        head = "+proj=utm +zone=%d +%s +ellps=WGS84 +datum=WGS84 +units=m +no_defs" % (zone, "south" if south else "north")
        code = (32700 if south else 32600) + zone
    elif k == 5:
        code = (32700 if south else 32600) + zone
        head = ("EPSG:%d" if rng.random() < 0.5 else "epsg:%d") % code
    elif k == 6:
        code, head = 3857, "EPSG:3857"
    elif k == 7:
        head = "+proj=tmerc +lat_0=%d +lon_0=%d +k=0.9996 +x_0=%d +y_0=1000 +ellps=GRS80 +towgs84=0,0,0,0,0,0,0 +units=m +no_defs" % (round(lat), round(lon), int(rng.integers(0, 10**6)))
        code = head
    else:
        head = "+proj=longlat +datum=WGS84 +no_defs"
        code = head
    T = pyproj.Transformer.from_crs("EPSG:4326", pyproj.CRS(code) if isinstance(code, str) else "EPSG:%d" % code, always_xy=True)
    return head, T, where


def blank(rng):
    return str(rng.choice([" ", "  ", "\t", " \t "]))


def judge_points(chk, got, want, what, tol, ctx, ids=True):
    """want: list of (id or None, lat, lon, alt or None, [(image, x, y)])."""
    if not chk.expect(len(got) == len(want), what + ": wrong number of points", got=len(got), want=len(want), **ctx):
        return
    if not chk.expect(len({g.id for g in got}) == len(got), what + ": points share an identifier", got=[g.id for g in got][:20], **ctx):
        return
    for g, (pid, lat, lon, alt, obs) in zip(got, want):
        chk.count("points of text files compared", pid is None)
        if pid is not None:
            chk.expect(g.id == pid, what + ": identifier of a point", got=g.id, want=pid, **ctx)
        if lat is None:
            chk.expect(not g.lla, what + ": position of a point without one", got=dict(g.lla), **ctx)
        else:
            ok = abs(g.lla["latitude"] - lat) <= tol and abs(g.lla["longitude"] - lon) <= tol
            chk.extreme("error of positions, degrees", max(abs(g.lla["latitude"] - lat), abs(g.lla["longitude"] - lon)))
            if not chk.expect(ok, what + ": position of a point", got=dict(g.lla), want=(lat, lon), **ctx):
                return
            v = g.lla_vec
            chk.expect(g.has_altitude == (alt is not None), what + ": knowledge of the altitude", got=g.has_altitude, want=alt, **ctx)
            chk.close([v[0], v[1], v[2]], [lat, lon, alt or 0.0], max(tol, 1e-9), what + ": position vector of a point", **ctx)
        have = [(o.shot_id, *np.array(o.projection)) for o in g.observations]
        chk.count("observations compared", len(have))
        chk.count("points seen in several images", len({o[0] for o in obs}) > 1)
        if not chk.expect(len(have) == len(obs) and all(a[0] == b[0] and np.abs(np.array(a[1:]) - b[1:]).max() < 1e-9 for a, b in zip(have, obs)), what + ": observations of a point", got=have[:5], want=obs[:5], **ctx):
            return
        chk.expect(int(g.role) == 0, what + ": role of a point", got=int(g.role), **ctx)


def text_file(rng, names, exif):
    """A control point file, and its points."""
    head, T, where = systems(rng)
    lines = []
    count = {"comments": 0, "unknown": 0, "nan": 0}

    def noise():
        while rng.random() < 0.15:
            count["comments"] += 1
            lines.append(str(rng.choice(["", "   ", "# comment", "  # 1 2 3 4 5 " + names[0], "#WGS84", "\t"])))

    noise()
    lines.append(head + str(rng.choice(["", "", " "])) if head == "WGS84" else head)
    points = []
    for _ in range(int(rng.integers(0, 9))):
        lat, lon = where[0] + float(rng.normal() * 1e-3), where[1] + float(rng.normal() * 1e-3)
        if head == "WGS84" and rng.random() < 0.1:
            lat = round(lat)
        x, y = (lon, lat) if T is None else T.transform(lon, lat)
        (sx, x), (sy, y) = number(rng, x), number(rng, y)
        if T is None:
            lon, lat = x, y
        else:
            lon, lat = T.transform(x, y, direction="INVERSE")
        alt = None if rng.random() < 0.3 else float(rng.choice([0.0, rng.normal() * 100, 12.5]))
        sz = str(rng.choice(["NaN", "nan", "NAN"])) if alt is None else None
        if alt is not None:
            sz, alt = number(rng, alt)
        points.append((sx, sy, sz, (x, y, alt), lat, lon))
    todo = []
    for p in points:
        for _ in range(int(rng.integers(1, 6))):
            todo.append(p)
    if rng.random() < 0.6:
        todo = [todo[k] for k in rng.permutation(len(todo))]
    want = {}
    for sx, sy, sz, key, lat, lon in todo:
        noise()
        unknown = rng.random() < 0.15
        name = "unknown.jpg" if unknown else str(rng.choice(names))
        (su, u), (sv, v) = number(rng, rng.uniform(-10, 4000)), number(rng, rng.uniform(0, 3000))
        extra = str(rng.choice(["", "", " ", " gcp1", "\tname of point 7"]))
        pre = str(rng.choice(["", "", "  "]))
        lines.append(pre + blank(rng).join([sx, sy, sz, su, sv, name]) + extra)
        if unknown:
            count["unknown"] += 1
            continue
        d = exif[name]
        m = max(d["width"], d["height"])
        want.setdefault(key, (None, lat, lon, key[2], []))[4].append((name, (u - (d["width"] - 1) / 2) / m, (v - (d["height"] - 1) / 2) / m))
    noise()
    end = str(rng.choice(["\n", "\n", "\r\n"]))
    count["nan"] = sum(w[3] is None for w in want.values())
    return end.join(lines) + (end if rng.random() < 0.8 else ""), list(want.values()), count, head


def json_points(rng, names, k0=0):
    out = []
    for k in range(int(rng.integers(0, 7))):
        pid = "p%d" % (k + k0) if rng.random() < 0.8 else "point %d \u00e9\"" % (k + k0)
        lat, lon = (float(rng.uniform(-89, 89)), float(rng.uniform(-180, 180))) if rng.random() < 0.9 else (None, None)
        alt = float(rng.normal() * 100) if rng.random() < 0.7 and lat is not None else None
        if alt is not None and rng.random() < 0.1:
            alt = 0.0
        obs = [(str(s), float(rng.uniform(-0.5, 0.5)), float(rng.uniform(-0.5, 0.5))) for s in rng.permutation(names)[: int(rng.integers(0, len(names) + 1))]]
        out.append((pid, lat, lon, alt, obs))
    return out


def dump(points):
    out = []
    for pid, lat, lon, alt, obs in points:
        p = {"id": pid, "observations": [{"shot_id": s, "projection": [x, y]} for s, x, y in obs]}
        if lat is not None:
            p["position"] = {"latitude": lat, "longitude": lon}
            if alt is not None:
                p["position"]["altitude"] = alt
        out.append(p)
    return json.dumps({"points": out})


def files(chk):
    from opensfm import dataset, io

    for i in range(chk.n(900, 40000)):
        rng = chk.rng_for("text", i)
        names = ["a.jpg", "01.jpg", "IMG-2_(3).JPG", "\u00fcber.png"][: int(rng.integers(1, 5))]
        exif = {n: {"width": int(rng.integers(1, 5000)), "height": int(rng.integers(1, 5000))} for n in names}
        text, want, count, head = text_file(rng, names, exif)
        ctx = dict(header=head, points=len(want), **count)
        chk.case("text file", dict(ctx, text=text[:1500]), sig=(chk.shard, i), nontrivial=bool(want))
        how = int(rng.integers(2))
        path = os.path.join(chk.tmp, "gcp_list.txt")
        if how:
            with open(path, "w", newline="", encoding="utf8") as f:
                f.write(text)

        def load():
            if how:
                with io.IoFilesystemDefault().open_rt(path) as f:
                    return io.read_gcp_list(f, exif)
            return io.read_gcp_list(pyio.StringIO(text), exif)

        ok, got = chk.guard(load, "control point file", **ctx)
        if not ok:
            continue
        chk.count("text files read")
        chk.count("projected files", not head.startswith("WGS84") or " " in head.strip())
        chk.count("points without altitude", count["nan"])
        chk.count("observations of unknown images", count["unknown"])
        chk.count("comment lines", count["comments"])
        judge_points(chk, got, want, "control point file", 1e-8, ctx)
        # written as JSON and read back
        f = pyio.StringIO()
        ok, _ = chk.guard(lambda: io.write_ground_control_points(got, f), "writing control points", **ctx)
        if ok:
            f.seek(0)
            ok, back = chk.guard(lambda: io.read_ground_control_points(f), "reading written control points", **ctx)
            if ok:
                chk.count("points written and read", len(back))
                judge_points(chk, back, [(g.id,) + w[1:] for g, w in zip(got, want)] if len(got) == len(want) else [], "written control points", 1e-8, ctx)
    for i in range(chk.n(400, 16000)):
        rng = chk.rng_for("json", i)
        names = ["a.jpg", "01.jpg", "IMG (3).JPG"]
        pts = json_points(rng, names)
        ctx = dict(points=len(pts), observations=sum(len(p[4]) for p in pts))
        chk.case("JSON file", ctx, sig=(chk.shard, i), nontrivial=bool(pts))
        ok, got = chk.guard(lambda: io.read_ground_control_points(pyio.StringIO(dump(pts))), "JSON control points", **ctx)
        if not ok:
            continue
        chk.count("JSON files read")
        judge_points(chk, got, pts, "JSON control points", 1e-12, ctx)
        f = pyio.StringIO()
        ok, _ = chk.guard(lambda: io.write_ground_control_points(got, f), "writing control points", **ctx)
        if ok:
            f.seek(0)
            ok, back = chk.guard(lambda: io.read_ground_control_points(f), "reading written control points", **ctx)
            if ok:
                chk.count("points written and read", len(back))
                judge_points(chk, back, pts, "written control points", 1e-12, ctx)
    # datasets with one file, both or none
    for i in range(chk.n(24, 500)):
        rng = chk.rng_for("dataset", i)
        root = os.path.join(chk.tmp, "d%d" % i)
        os.makedirs(os.path.join(root, "images"))
        os.makedirs(os.path.join(root, "exif"))
        names = ["a.jpg", "01.jpg", "02.jpg"]
        exif = {n: {"width": int(rng.integers(1, 5000)), "height": int(rng.integers(1, 5000))} for n in names}
        for n in names:
            open(os.path.join(root, "images", n), "w").close()
            with open(os.path.join(root, "exif", n + ".exif"), "w") as f:
                json.dump(exif[n], f)
        with open(os.path.join(root, "config.yaml"), "w") as f:
            f.write("processes: 1\n")
        want, has = [], (bool(rng.random() < 0.7), bool(rng.random() < 0.7))
        if has[0]:
            text, w, _, head = text_file(rng, names, exif)
            with open(os.path.join(root, "gcp_list.txt"), "w") as f:
                f.write(text)
            want += w
        data = dataset.DataSet(root)
        pts = json_points(rng, names)
        ctx = dict(text=has[0], json=has[1], points=len(want) + len(pts) * has[1])
        chk.case("dataset", ctx, sig=(chk.shard, i), nontrivial=any(has))
        if has[1]:
            if rng.random() < 0.5:
                data.save_ground_control_points(io.read_ground_control_points(pyio.StringIO(dump(pts))))
            else:
                with open(os.path.join(root, "ground_control_points.json"), "w") as f:
                    f.write(dump(pts))
            want += pts
        ok, got = chk.guard(lambda: data.load_ground_control_points(), "control points of a dataset", **ctx)
        if ok:
            chk.count("datasets with both files", all(has))
            judge_points(chk, got, want, "control points of a dataset", 1e-8, ctx)
        shutil.rmtree(root)


# ------------------------------------------------------------------ GPS logs
def gps_log(rng, n, elevation=True):
    t = datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=float(rng.uniform(0, 1e8)))
    lat, lon, alt = float(rng.uniform(-70, 70)), float(rng.uniform(-170, 170)), float(rng.normal() * 100)
    step = float(rng.choice([1e-6, 1e-5, 1e-4]))
    heading = rng.uniform(0, 2 * np.pi)
    out = []
    for _ in range(n):
        out.append((t, lat, lon, alt if elevation is True or (elevation == "some" and rng.random() < 0.6) else None))
        t += datetime.timedelta(milliseconds=int(rng.integers(100, 5000)))
        heading += rng.normal() * 0.3
        k = step * float(rng.choice([0.0, 1.0, rng.uniform(0, 3)], p=[0.1, 0.4, 0.5]))
        lat += k * math.cos(heading)
        lon += k * math.sin(heading)
        alt += float(rng.normal())
    return out


def true_bearing(a, b):
    """Initial course on the sphere, from the tangent towards b."""
    p, q = ([math.cos(math.radians(x[1])) * math.cos(math.radians(x[2])), math.cos(math.radians(x[1])) * math.sin(math.radians(x[2])), math.sin(math.radians(x[1]))] for x in (a, b))
    la, lo = math.radians(a[1]), math.radians(a[2])
    north = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0.0])
    d = np.array(q) - np.array(p)
    return math.degrees(math.atan2(d @ east, d @ north)) % 360


def logs(chk):
    import contextlib

    with contextlib.redirect_stdout(pyio.StringIO()):
        from opensfm import geo, geotag_from_gpx as gpx
    for i in range(chk.n(400, 16000)):
        rng = chk.rng_for("log", i)
        log = gps_log(rng, int(rng.integers(2, 40)), [True, "some", False][int(rng.choice([0, 0, 1, 2]))])
        ctx = dict(points=len(log))
        chk.case("log", ctx, sig=(chk.shard, i))
        t0, t1 = log[0][0], log[-1][0]
        for _ in range(12):
            u = rng.random()
            if u < 0.2:
                t = log[int(rng.integers(len(log)))][0]
            elif u < 0.3:
                t = t1 + datetime.timedelta(seconds=float(rng.uniform(0.001, 10)))
            elif u < 0.4:
                t = t0 - datetime.timedelta(seconds=float(rng.uniform(0.001, 10)))
            else:
                t = t0 + (t1 - t0) * float(rng.random())
            try:
                got = gpx.interpolate_lat_lon(log, t)
            except ValueError:
                got = None
            except Exception as e:
                chk.expect(False, "interpolation of a log raised %s" % type(e).__name__, time=str(t), **ctx)
                break
            if t < t0 or t > t1:
                chk.count("times outside of the log")
                chk.expect(got is None, "position at a time outside of the log", time=str(t), got=got, **ctx)
                continue
            if t == t1 and got is None:
                continue
            if not chk.expect(got is not None, "no position at a time within the log", time=str(t), **ctx):
                break
            chk.count("times interpolated")
            k = max(j for j in range(len(log) - 1) if log[j][0] <= t)
            a, b = log[k], log[k + 1]
            f = (t - a[0]).total_seconds() / (b[0] - a[0]).total_seconds()
            chk.close(got[:2], [a[1] + f * (b[1] - a[1]), a[2] + f * (b[2] - a[2])], 1e-10, "position on the log", time=str(t), **ctx)
            if a[3] is not None and b[3] is not None:
                chk.close([got[3]], [a[3] + f * (b[3] - a[3])], 1e-7, "elevation on the log", time=str(t), **ctx)
            else:
                chk.expect(got[3] is None or got[3] in (a[3], b[3]), "elevation where the log has none", got=got[3], **ctx)
            if math.hypot(a[1] - b[1], a[2] - b[2]) > 1e-6:
                d = abs((got[2] - true_bearing(a, b) + 180) % 360 - 180)
                chk.expect(d < 0.05, "course on the log", got=got[2], want=true_bearing(a, b), **ctx)
        for _ in range(4):
            a, b = ((0, float(rng.uniform(-80, 80)), float(rng.uniform(-180, 180))) for _ in range(2))
            got = gpx.compute_bearing(a[1], a[2], b[1], b[2])
            chk.expect(abs((got - true_bearing(a, b) + 180) % 360 - 180) < 1e-6 and 0 <= got <= 360, "bearing between two places", got=got, want=true_bearing(a, b), places=(a[1:], b[1:]))
            v = float(rng.choice([rng.uniform(-180, 180), rng.integers(-180, 181), rng.uniform(-1e-3, 1e-3)]))
            deg, m, s, ref = gpx.to_deg(v, ["S", "N"])
            chk.expect(abs(deg + m / 60 + s / 3600 - abs(v)) < 1e-9 and deg >= 0 and 0 <= m < 60 and 0 <= s <= 60 and (v == 0 or ref == ("S" if v < 0 else "N")), "degrees, minutes and seconds", value=v, got=(deg, m, s, ref))
        # sampling
        log = [(t, la, lo, al if al is not None else 0.0) for t, la, lo, al in log]
        dist = lambda p, q: geo.gps_distance(p[1:3], q[1:3])  # noqa: E731
        for mode in ("space", "time"):
            total = sum(dist(p, q) for p, q in zip(log, log[1:])) if mode == "space" else (t1 - t0).total_seconds()
            if total < 1e-3:
                continue
            every = total / float(rng.uniform(0.5, 30))
            if mode == "time":
                every = max(every, 0.5)
            if mode == "space":
                every = max(every, 0.2)
            with contextlib.redirect_stdout(pyio.StringIO()):
                ok, got = chk.guard(lambda: gpx.sample_gpx(log, every, every if mode == "time" else None), "sampling a log", mode=mode, every=every, **ctx)
            if not ok:
                continue
            chk.count("logs sampled")
            gap = (lambda p, q: (q[0] - p[0]).total_seconds()) if mode == "time" else dist
            gaps = [gap(p, q) for p, q in zip(got, got[1:])]
            chk.expect(got[0] == log[0] and all(abs(g - every) < 1e-3 * every + 2e-3 for g in gaps), "samples of a log are not equally spaced", mode=mode, every=every, gaps=[round(g, 4) for g in gaps[:10]], **ctx)
            chk.expect(all(p[0] <= q[0] for p, q in zip(got, got[1:])), "samples of a log go back in time", mode=mode, **ctx)
            if mode == "time":
                chk.expect(len(got) - 1 in (int(total / every + 1e-4), int(total / every - 1e-4)), "number of samples of a log", got=len(got), want=total / every, **ctx)
            else:
                chk.expect(gap(got[-1], log[-1]) < every * 1.01 + 1e-3, "samples end before the log", left=gap(got[-1], log[-1]), every=every, **ctx)
            for p in got:
                # on the polygon of the log at its time, up to the rounding of times to microseconds and the curvature of the earth
                k = [j for j in range(len(log) - 1) if log[j][0] <= p[0] <= log[j + 1][0]]
                if not chk.expect(bool(k), "time of a sample outside of the log", mode=mode, **ctx):
                    break
                best = 1e9
                for j in k:
                    a, b = log[j], log[j + 1]
                    f = (p[0] - a[0]).total_seconds() / (b[0] - a[0]).total_seconds()
                    want = np.array([a[1] + f * (b[1] - a[1]), a[2] + f * (b[2] - a[2]), (a[3] + f * (b[3] - a[3])) * 1e-6])
                    best = min(best, np.abs(np.array([p[1], p[2], p[3] * 1e-6]) - want).max())
                if not chk.expect(best < 1e-8, "sample is not on the log at its time", mode=mode, off=best, **ctx):
                    break


class Tags(dict):
    """Stand-in for the metadata of a picture, in place of the library which is not installed."""

    disk = {}

    def __init__(self, name):
        self.name = str(name)

    def read(self):
        self.update(Tags.disk[self.name])

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, types.SimpleNamespace(value=v))

    def write(self):
        Tags.disk[self.name] = dict(self)


def written(tags):
    """Position, course and altitude a picture is tagged with."""
    v = {k.rsplit(".", 1)[1]: t.value for k, t in tags.items()}
    angle = lambda x, ref, pos, neg: float(x[0] + x[1] / 60 + x[2] / 3600) * (-1 if ref == neg else 1) if ref in (pos, neg, "") else math.nan  # noqa: E731
    alt = v.get("GPSAltitude")
    return (angle(v["GPSLatitude"], v["GPSLatitudeRef"], "N", "S"), angle(v["GPSLongitude"], v["GPSLongitudeRef"], "E", "W"), float(v["GPSImgDirection"]),
            None if alt is None else float(alt) * {"0": 1, "1": -1}[v["GPSAltitudeRef"]])


def tagging(chk):
    """Positions written to pictures, and logs read, with stand-ins for the two libraries this needs."""
    import contextlib
    import fractions
    import time

    with contextlib.redirect_stdout(pyio.StringIO()):
        from opensfm import geotag_from_gpx as gpx
    gpx.pyexiv2 = types.SimpleNamespace(ImageMetadata=Tags)
    gpx.make_fraction = fractions.Fraction
    current = {}
    gpx.gpxpy = types.SimpleNamespace(parse=lambda f: current[f.read()])
    zone = os.environ.get("TZ")
    try:
        for i in range(chk.n(240, 6000)):
            rng = chk.rng_for("tagging", i)
            # a log of several segments
            log = gps_log(rng, int(rng.integers(2, 20)), [True, "some", False][int(rng.choice([0, 0, 1, 2]))])
            if rng.random() < 0.2:
                log = [(t, la - log[0][1], lo - log[0][2], al) for t, la, lo, al in log]  # starts where the equator meets the first meridian
            hours = int(rng.integers(-11, 13))
            os.environ["TZ"] = "XXX%+d" % -hours
            time.tzset()
            utc = bool(rng.integers(2))
            shift = datetime.timedelta(hours=hours if utc else 0)
            cuts = sorted(set(int(x) for x in rng.integers(1, len(log) + 1, int(rng.integers(0, 3)))) | {0, len(log)})
            segments = [log[a:b] for a, b in zip(cuts, cuts[1:])]
            segments = [segments[k] for k in rng.permutation(len(segments))]
            point = lambda q: types.SimpleNamespace(time=q[0] - shift, latitude=q[1], longitude=q[2], elevation=q[3])  # noqa: E731
            where = int(rng.integers(0, len(segments) + 1))
            current["it"] = types.SimpleNamespace(tracks=[types.SimpleNamespace(segments=[types.SimpleNamespace(points=[point(q) for q in g]) for g in gs]) for gs in (segments[:where], segments[where:])])
            path = os.path.join(chk.tmp, "log.gpx")
            with open(path, "w") as f:
                f.write("it")
            chk.case("tagged", {"points": len(log), "segments": len(segments), "hours from utc": hours, "utc": utc}, sig=(chk.shard, i))
            ok, got = chk.guard(lambda: gpx.get_lat_lon_time(path, "utc") if utc and i % 2 else gpx.get_lat_lon_time(path, "utc" if utc else "local"), "reading a log")
            if ok:
                same = len(got) == len(log) and all(abs((a[0] - b[0]).total_seconds()) < 0.02 and a[1:] == b[1:] for a, b in zip(got, log))
                chk.expect(same, "the points of a log are not read in the order of their times", got=[str(g) for g in got[:3]], want=[str(g) for g in log[:3]])
                chk.count("logs read")
            # positions by time
            for j in range(4):
                name = os.path.join(chk.tmp, "p%d.jpg" % j)
                with open(name, "w") as f:
                    f.write("picture")
                offset = int(rng.choice([0, 0, 3, -7, 3600]))
                t = log[0][0] + (log[-1][0] - log[0][0]) * float(rng.uniform(-0.2, 1.2))
                Tags.disk[name] = {}
                m = Tags(name)
                given = bool(rng.integers(2))
                m["Exif.Photo.DateTimeOriginal"] = (t + datetime.timedelta(seconds=offset)) if not given else datetime.datetime(1999, 1, 1)
                m["Exif.Image.ImageDescription"] = "before"
                m.write()
                before = dict(Tags.disk[name])
                kw = {"offset_time": offset}
                if given:
                    kw["timestamp"] = t + datetime.timedelta(seconds=offset)
                if rng.random() < 0.5:
                    kw["orientation"] = int(rng.integers(1, 9))
                if rng.random() < 0.5:
                    kw["image_description"] = "after"
                with contextlib.redirect_stdout(pyio.StringIO()):
                    ok, _ = chk.guard(lambda: gpx.add_exif_using_timestamp(name, log, **kw), "tagging a picture by its time")
                if not ok:
                    continue
                tags = Tags.disk[name]
                if t < log[0][0] or t > log[-1][0]:
                    chk.expect(tags == before, "a picture taken outside of the log was tagged", time=str(t))
                    chk.count("pictures outside of the log")
                    continue
                if not chk.expect("Exif.GPSInfo.GPSLatitude" in tags, "a picture taken within the log was not tagged", time=str(t)):
                    continue
                k = max(j for j in range(len(log) - 1) if log[j][0] <= t)
                a, b = log[k], log[k + 1]
                f = (t - a[0]).total_seconds() / (b[0] - a[0]).total_seconds()
                la, lo, course, alt = written(tags)
                chk.close([la, lo], [a[1] + f * (b[1] - a[1]), a[2] + f * (b[2] - a[2])], 1e-9, "position written to a picture")
                if math.hypot(a[1] - b[1], a[2] - b[2]) > 1e-6:
                    chk.expect(abs((course - true_bearing(a, b) + 180) % 360 - 180) < 0.06 and tags["Exif.GPSInfo.GPSImgDirectionRef"].value == "T", "course written to a picture", got=course)
                if a[3] is not None and b[3] is not None:
                    chk.expect(alt is not None and abs(alt - a[3] - f * (b[3] - a[3])) < 0.011, "altitude written to a picture", got=alt, want=a[3] + f * (b[3] - a[3]))
                chk.expect(tags["Exif.Image.Orientation"].value == kw.get("orientation", 1), "orientation written to a picture")
                chk.expect(tags["Exif.Image.ImageDescription"].value == kw.get("image_description", "before"), "description written to a picture")
                chk.count("pictures tagged by time")
            # given positions
            name, copy = (os.path.join(chk.tmp, x) for x in ("q.jpg", "r.jpg"))
            with open(name, "w") as f:
                f.write("picture")
            if os.path.exists(copy):
                os.remove(copy)
            aside = bool(rng.integers(2))
            Tags.disk = {name: {"Exif.Image.ImageDescription": types.SimpleNamespace(value="before")}}
            Tags.disk[copy] = dict(Tags.disk[name])
            lat, lon, course = float(rng.uniform(-90, 90)), float(rng.uniform(-180, 180)), float(rng.uniform(0, 360))
            if rng.random() < 0.2:
                lat, lon = float(rng.choice([0, lat, 45, -45])), float(rng.choice([0, lon, 90, -90]))
            alt = None if rng.random() < 0.2 else float(rng.choice([0, rng.uniform(-400, 5000)]))
            keep = bool(rng.integers(2))
            kw = dict({"updated_filename": copy} if aside else {}, **({"remove_image_description": False} if keep else {}))
            ok, _ = chk.guard(lambda: gpx.add_gps_to_exif(name, lat, lon, course, alt, **kw), "tagging a picture")
            if not ok:
                continue
            tags = Tags.disk[copy if aside else name]
            la, lo, c, al = written(tags)
            chk.close([la, lo], [lat, lon], 1e-9, "given position written to a picture")
            chk.expect(abs(c - course) < 0.011 and (al is None) == (alt is None) and (alt is None or abs(al - alt) < 0.011), "given course and altitude written to a picture", got=(c, al), want=(course, alt))
            chk.expect(bool(tags["Exif.Image.ImageDescription"].value) == keep, "description of a tagged picture", kept=keep)
            if aside:
                chk.expect(len(Tags.disk[name]) == 1 and os.path.exists(copy), "the original of a tagged copy was changed")
            chk.count("pictures tagged")
    finally:
        if zone is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = zone
        time.tzset()


# -------------------------------------------------------------- annotation tool
def annotation(chk):
    import contextlib

    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    from annotation_gui_gcp.lib import gcp_manager as gm

    from opensfm import io

    path = os.path.join(chk.tmp, "annotation")
    os.makedirs(path, exist_ok=True)
    for i in range(chk.n(160, 8000)):
        rng = chk.rng_for("annotation", i)
        m, model = gm.GroundControlPointManager(path), {}
        chk.case("annotation history", {"number": i}, sig=(chk.shard, i))
        names = ["s%d.jpg" % k for k in range(5)]
        good = True
        for step in range(int(rng.integers(5, 60))):
            op = int(rng.integers(8))
            ids = sorted(model)
            pid = str(rng.choice(ids)) if ids else None
            shot = str(rng.choice(names))
            if op <= 1 or pid is None:
                new = m.add_point()
                good &= chk.expect(new not in model, "annotation tool reused the identifier of a point", got=new, have=ids)
                model[new] = {"obs": {}, "geo": None}
            elif op <= 4:
                if shot in model[pid]["obs"]:
                    continue
                dims = 3 if rng.random() < 0.2 else 2
                x = tuple(float(v) for v in rng.uniform(-0.5, 0.5, dims))
                geo = None
                if rng.random() < 0.3:
                    geo = {"latitude": float(rng.uniform(-80, 80)), "longitude": float(rng.uniform(-180, 180)), "measured_at": int(rng.integers(0, 10**9))}
                    if rng.random() < 0.5:
                        geo["altitude"] = float(rng.normal() * 100)
                    if rng.random() < 0.5:
                        geo["horizontal_std"] = float(rng.uniform(0.1, 5))
                    model[pid]["geo"] = geo
                prec = float(rng.uniform(0.001, 0.01))
                m.add_point_observation(pid, shot, x, prec, geo)
                model[pid]["obs"][shot] = (x, prec)
            elif op == 5:
                drop = bool(rng.random() < 0.3)
                m.remove_point_observation(pid, shot, drop)
                model[pid]["obs"].pop(shot, None)
                if drop:
                    model[pid]["geo"] = None
            elif op == 6 and rng.random() < 0.4:
                m.remove_gcp(pid)
                del model[pid]
            else:
                with contextlib.redirect_stdout(pyio.StringIO()):
                    ok, _ = chk.guard(lambda: m.write_to_file(None), "writing annotations")
                    if not ok:
                        break
                    m = gm.GroundControlPointManager(path)
                    ok, _ = chk.guard(lambda: m.load_from_file(None), "reading annotations")
                    if not ok:
                        break
            good &= chk.expect(set(m.points) == set(model), "points of the annotation tool", got=sorted(m.points), want=sorted(model))
            if not good:
                break
            if step % 5 == 0:
                for p, v in model.items():
                    q = m.points[p]
                    have = {}
                    for o in q.observations:
                        have[o.image_id] = ((o.x, o.y, o.z), o.precision) if isinstance(o, gm.PointMeasurement3D) else ((o.normalized_x, o.normalized_y), o.normalized_precision)
                    g = q.geodetic_measurement
                    geo = None
                    if v["geo"]:
                        geo = (v["geo"]["latitude"], v["geo"]["longitude"], v["geo"].get("altitude"), v["geo"].get("horizontal_std", 100), v["geo"]["measured_at"])
                    good &= chk.expect(have == v["obs"] and len(q.observations) == len(have), "annotations of a point", got=have, want=v["obs"])
                    good &= chk.expect((None if g is None else (g.latitude, g.longitude, g.altitude, g.horizontal_std, g.measured_at)) == geo, "position of an annotated point", got=repr(g), want=geo)
                for s in names:
                    seen = dict(m.get_visible_points_coords(s))
                    good &= chk.expect(seen == {p: v["obs"][s][0] + (v["obs"][s][1],) for p, v in model.items() if s in v["obs"]}, "points visible in an image", got=seen)
            if not good:
                break
        if not good:
            continue
        chk.count("annotation histories")
        # what the tool writes is what the reconstruction reads
        m.write_to_file(None)
        with open(os.path.join(path, "ground_control_points.json")) as f:
            ok, got = chk.guard(lambda: io.read_ground_control_points(f), "reading the points of the annotation tool")
        if ok:
            by = {g.id: g for g in got}
            for p, v in model.items():
                if not chk.expect(p in by, "annotated point lost", point=p):
                    break
                g = by[p]
                flat = {s: x for s, (x, _) in v["obs"].items() if len(x) == 2}
                have = {o.shot_id: tuple(np.array(o.projection)) for o in g.observations if o.shot_id in flat}
                chk.expect(have == flat and bool(g.lla) == bool(v["geo"]), "annotated point as read by the reconstruction", got=have, want=flat)
                if v["geo"] and g.lla:
                    chk.expect(g.has_altitude == ("altitude" in v["geo"]) and abs(g.lla["latitude"] - v["geo"]["latitude"]) < 1e-12 and abs(g.lla["longitude"] - v["geo"]["longitude"]) < 1e-12,
                               "position of an annotated point as read by the reconstruction", got=dict(g.lla), want=v["geo"])


def annotation_errors(chk):
    """Errors of control points, from a reconstruction with known places."""
    import gen
    from opensfm import geo, pygeometry, pymap, types

    from annotation_gui_gcp import run_ba

    for i in range(chk.n(40, 2000)):
        rng = chk.rng_for("errors", i)
        rec = types.Reconstruction()
        rec.reference = geo.TopocentricConverter(float(rng.uniform(-70, 70)), float(rng.uniform(-179, 179)), float(rng.uniform(0, 500)))
        cam = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
        cam.id, cam.width, cam.height = "cam", 4000, 3000
        rec.add_camera(cam)
        target = rng.normal(size=3) * 20
        for k in range(4):
            o = target + rng.normal(size=3) * 3 + np.array([0, 0, 40.0]) + np.array([k * 10.0, 0, 0])
            R = gen.look_at(o, target, up=(0, 1, 0))
            p = pygeometry.Pose()
            p.set_rotation_matrix(np.array(R)[:3, :3])
            p.set_origin(o)
            rec.create_shot("s%d" % k, "cam", p)
        pts, want = [], {}
        for k in range(int(rng.integers(1, 5))):
            X = target + rng.normal(size=3) * 2
            err = rng.normal(size=3)
            lat, lon, alt = rec.reference.to_lla(*(X - err))
            g = pymap.GroundControlPoint()
            g.id = "g%d" % k
            g.lla = {"latitude": lat, "longitude": lon, "altitude": alt}
            g.has_altitude = True
            for s in list(rec.shots)[: int(rng.choice([1, 4]))]:
                ob = pymap.GroundControlPointObservation()
                ob.shot_id, ob.projection = s, rec.shots[s].project(X)
                g.add_observation(ob)
            pts.append(g)
            want[g.id] = err if len(g.observations) > 1 else None
        chk.case("annotation errors", {"number": i, "points": len(pts)}, sig=(chk.shard, i))
        ok, got = chk.guard(lambda: run_ba.gcp_geopositional_error(pts, rec), "errors of control points")
        if not ok:
            continue
        for g, e in want.items():
            if e is None:
                chk.expect(math.isnan(got[g]["error"]), "error of a point seen once", got=got[g])
                continue
            chk.count("control point errors of the annotation tool compared")
            chk.close([got[g]["error"]], [np.linalg.norm(e)], 1e-4, "error of a control point")
            chk.close([got[g]["error_planar"]], [np.hypot(e[0], e[1])], 1e-2, "planar error of a control point")


def run(chk):
    files(chk)
    logs(chk)
    tagging(chk)
    annotation(chk)
    annotation_errors(chk)
