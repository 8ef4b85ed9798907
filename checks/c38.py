"""C38: the viewer shows what the reconstruction says."""
import copy
import json
import os
import shutil
import subprocess
import sys
from unittest import mock
from urllib.parse import quote, unquote, urlsplit

import numpy as np

import gen
import scenes

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["sessions", "sessions from addresses", "files loaded later", "files added", "clusters judged", "images judged", "images without rotation", "images at half turns", "meshes judged", "directions judged", "positions without a receiver", "reconstructions without a reference",
            "refused files", "failed addresses", "cells asked", "cells announced", "names taken back", "thumbnails fetched from the server", "addresses of pages", "selections", "files selected from the server", "statistics", "invented images"]
RULE = ("one case = one session with the viewer's provider (modules of viewer/src run by node with stand-ins for the browser and the libraries): reconstructions written by the real code are fetched, loaded and added, with refusals and failures in between, and everything it answers is compared "
        "with the reconstructions; or one address of a page; or one selection from the list that the server gives; non-trivial when an image is shown")
ASSUMPTIONS = ["stand-ins for gl-matrix (32-bit floats) and mapillary-js behave as documented by these libraries, which are not in the repository", "names of images have no slash, names of files given in the address of the page no comma",
               "coordinates are within 1 km of the reference and are compared to 32-bit precision"]
HOST = "http://viewer.test:8080"
NAMES = ["im%d.jpg", "an image %d.JPG", "é%d.jpg", "a#%d.jpg", "%d%%.jpg", "x?%d.jpg", "a|b%d.jpg", "a:%d.jpg", "%%41_%d.jpg", "a&b+%d.png", "..%d", "日本%d", "a'b\"%d"]


def ecef_ref(lat, lon, alt):
    a, b = 6378137.0, 6356752.314245179
    la, lo = np.radians(lat), np.radians(lon)
    e2 = 1 - b * b / (a * a)
    n = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
    return np.array([(n + alt) * np.cos(la) * np.cos(lo), (n + alt) * np.cos(la) * np.sin(lo), ((1 - e2) * n + alt) * np.sin(la)])


def axes_ref(lat, lon):
    la, lo = np.radians(lat), np.radians(lon)
    return np.array([[-np.sin(lo), np.cos(lo), 0], [-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)], [np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]])


class Viewer:
    """The modules of the viewer, in a JavaScript engine."""

    def __init__(self):
        lib = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")
        self.p = subprocess.Popen(["node", os.path.join(lib, "viewer.mjs"), os.environ.get("VERIF_REPO", "/repo")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def __call__(self, op, **k):
        self.p.stdin.write(json.dumps(dict(k, op=op)) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the modules of the viewer don't run (status %s)" % self.p.wait())
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait(30)


def server():
    repo = os.environ.get("VERIF_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    from viewer import server

    return server


def reconstruction(rng, names):
    """A reconstruction, as the real code writes it."""
    from opensfm import geo, io, pymap, types

    r = types.Reconstruction()
    ref = None
    if rng.random() < 0.85:
        ref = (float(rng.uniform(-80, 80)), float(rng.uniform(-179, 179)), float(rng.choice([0, rng.uniform(-50, 3000)])))
        r.reference = geo.TopocentricConverter(*ref)
    cams = ["c%d" % k for k in range(int(rng.integers(1, 4)))]
    for c in cams:
        r.add_camera(gen.make_camera(gen.camera_params(rng, str(rng.choice(["perspective", "fisheye", "spherical", "simple_radial", "brown"])), 0.1), c))
    for n in names:
        R = gen.rand_rotation(rng)
        kind = rng.integers(8)
        from opensfm import pygeometry

        p = pygeometry.Pose()
        if kind == 0:
            v = np.zeros(3)
        elif kind == 1:
            v = rng.normal(size=3)
            v *= np.pi * (1 - float(rng.choice([0, 1e-9]))) / np.linalg.norm(v)
        elif kind == 2:
            v = rng.normal(size=3) * 10.0 ** rng.integers(-12, -2)
        elif kind == 3:
            v = np.eye(3)[rng.integers(3)] * float(rng.choice([np.pi / 2, -np.pi / 2, np.pi]))
        else:
            v = np.asarray(scenes_rotvec(R))
        p.rotation = v
        p.translation = rng.normal(size=3) * float(rng.choice([0, 1, 100]))
        s = r.create_shot(n, str(rng.choice(cams)), p)
        m = s.metadata
        if rng.random() < 0.8:
            m.orientation.value = int(rng.choice([1, 3, 6, 8]))
        if rng.random() < 0.8:
            m.capture_time.value = float(rng.uniform(0, 2e9))
        if rng.random() < 0.7:
            m.gps_position.value = rng.normal(size=3) * 100 * (rng.random(3) < 0.7)
        s.scale = float(rng.choice([1.0, rng.uniform(0.05, 20)]))
        s.merge_cc = int(rng.integers(0, 5))
        if rng.random() < 0.6:
            k = int(rng.integers(3, 9))
            s.mesh.vertices = rng.normal(size=(k, 3)) * 10
            s.mesh.faces = [[int(x) for x in rng.integers(0, k, 3)] for _ in range(int(rng.integers(1, 9)))]
    for k in range(int(rng.integers(0, 12))):
        q = r.create_point(str(k), rng.normal(size=3) * 50)
        q.color = [int(v) for v in rng.integers(0, 256, 3)]
    d = json.loads(json.dumps(io.reconstruction_to_json(r)))
    for c in d["cameras"].values():
        if c["projection_type"] == "spherical" and rng.random() < 0.5:
            c["projection_type"] = "equirectangular"  # older files
    for s in d["shots"].values():
        if rng.random() < 0.2:
            s.pop("merge_cc", None)
    if rng.random() < 0.1:
        d.pop("points")
    if ref is None and rng.random() < 0.7:
        d.pop("reference_lla", None)
    return d


def scenes_rotvec(R):
    import cv2

    return cv2.Rodrigues(np.asarray(R))[0].ravel()


def images_of(rng, used):
    out = []
    for _ in range(int(rng.integers(1, 5))):
        out.append(str(rng.choice(NAMES)) % int(rng.integers(0, 30)))
    return sorted(set(out))


def close(chk, a, b, tol, what, **data):
    if a is None or any(v is None for v in np.ravel(np.array(a, object))):
        return chk.expect(False, what + ": not a number", got=a, want=np.asarray(b).tolist(), **data)
    return chk.close(np.asarray(a, float), np.asarray(b, float), tol, what)


def place(chk, got, x, ref, what):
    """Longitude, latitude and altitude of a place near the reference."""
    if not chk.expect(all(v is not None for v in got), what + ": not a number", got=got, at=np.asarray(x).tolist()):
        return
    lng, lat, alt = got
    e = ecef_ref(lat, lng, alt) - ecef_ref(*ref)
    gap = np.linalg.norm(axes_ref(ref[0], ref[1]) @ e - x)
    chk.extreme("place of an image", gap)
    chk.expect(gap < 2e-3, what, gap=gap, got=got, at=np.asarray(x).tolist(), reference=ref)


def judge(chk, out, want, options, what):
    """All answers of the provider against the reconstructions in it, in order."""
    names = {}
    for k, (d, f) in enumerate(want):
        for s in d["shots"]:
            names["cluster_%d|%s" % (k, s)] = (k, s)
    got = set(out["names"])
    if not chk.expect(got == set(names), what + ": images", got=sorted(got), want=sorted(names)):
        return
    chk.expect(set(out["clusters"]) == {"cluster_%d" % k for k in range(len(want))} == set(out["raw"]), what + ": clusters", got=sorted(out["clusters"]))
    cells = {}
    for k, v in out["cells"].items():
        chk.count("cells asked")
        chk.expect(v["cell_id"] == k and len(v["images"]) > 0, what + ": cell", got=v["cell_id"])
        for im in v["images"]:
            chk.expect(im["id"] not in cells, what + ": image in two cells", id=im["id"])
            cells[im["id"]] = (k, im)
    chk.expect(set(cells) == set(names), what + ": images of the cells", got=sorted(cells))
    chk.expect(out["unknown"] == {"cell_id": "nowhere", "images": []}, what + ": cell that isn't there", got=out["unknown"])
    chk.expect([e["node_id"] for e in out["images"]] == out["some"] and [e["node_id"] for e in out["spatial"]] == out["names"], what + ": images asked by name")
    chk.expect(all(e["node"]["id"] == e["node_id"] for e in out["images"] + out["spatial"]), what + ": images asked by name are others")
    full = {e["node_id"]: e["node"] for e in out["spatial"]}
    for name, (c, i, u) in zip(out["names"], out["back"]):
        k, s = names[name]
        chk.count("names taken back")
        chk.expect((c, i, u) == ("cluster_%d" % k, s, name), what + ": name of an image taken from its unique name", got=(c, i, u), want=s)
    for k, (d, f) in enumerate(want):
        c = out["clusters"]["cluster_%d" % k]
        chk.count("clusters judged")
        r = d.get("reference_lla")
        if not r:
            chk.count("reconstructions without a reference")
        ref = (r["latitude"], r["longitude"], r["altitude"]) if r else (0.0, 0.0, 0.0)
        chk.expect(c["id"] == "cluster_%d" % k and c["reference"] == {"lat": ref[0], "lng": ref[1], "alt": ref[2]}, what + ": reference of a cluster", got=c["reference"], want=ref)
        P = d.get("points", {})
        if chk.expect(set(c["points"]) == set(P), what + ": points of a cluster", got=len(c["points"]), want=len(P)):
            for n, p in P.items():
                close(chk, c["points"][n]["coordinates"], p["coordinates"], 1e-12, what + ": coordinates of a point")
                close(chk, c["points"][n]["color"], np.array(p["color"]) / 255.0, 1e-9, what + ": color of a point")
        raw = out["raw"]["cluster_%d" % k]
        chk.expect(raw["id"] == "cluster_%d" % k and raw["file"]["url"] == f["url"] and raw["file"]["name"] == f["name"] and sorted(raw["shots"]) == sorted(d["shots"]), what + ": source of a cluster", got=raw, want=f["url"])
        for s, shot in d["shots"].items():
            u = "cluster_%d|%s" % (k, s)
            im = full[u]
            chk.count("images judged")
            chk.expect(cells[u][1] == im, what + ": an image in its cell differs")
            v = np.array(shot["rotation"])
            a = np.linalg.norm(v)
            R = gen.rodrigues(v)
            chk.count("images without rotation", int(a == 0))
            chk.count("images at half turns", int(abs(a - np.pi) < 1e-6))
            t = np.array(shot["translation"])
            o = -R.T @ t
            place(chk, [im["computed_geometry"]["lng"], im["computed_geometry"]["lat"], im["computed_altitude"]], o, ref, what + ": computed place of an image")
            if "gps_position" in shot:
                g = np.array(shot["gps_position"])
            else:
                g = o
                chk.count("positions without a receiver")
            place(chk, [im["geometry"]["lng"], im["geometry"]["lat"], im["altitude"]], g, ref, what + ": place of an image")
            cell = "%d/%d" % (np.floor(im["geometry"]["lng"] * 4000), np.floor(im["geometry"]["lat"] * 4000)) if im["geometry"]["lng"] is not None else None
            chk.expect(cell is None or cells[u][0] == cell, what + ": cell of an image", got=cells[u][0], want=cell)
            close(chk, im["computed_rotation"], v, 1e-12, what + ": rotation of an image")
            z = R.T @ [0, 0, 1]
            if np.hypot(z[0], z[1]) > 0.05:
                chk.count("directions judged")
                for key in ("computed_compass_angle", "compass_angle"):
                    b = im[key]
                    if chk.expect(b is not None and 0 <= b <= 360, what + ": bearing of an image", got=b):
                        gap = abs((b - np.degrees(np.arctan2(z[0], z[1])) + 180) % 360 - 180)
                        chk.extreme("bearing", gap)
                        chk.expect(gap < 1e-3, what + ": bearing of an image", got=b, want=float(np.degrees(np.arctan2(z[0], z[1])) % 360))
            cam = d["cameras"][shot["camera"]]
            kind = {"equirectangular": "spherical"}.get(cam["projection_type"], cam["projection_type"])
            chk.expect(im["camera_type"] == kind and (im["width"], im["height"]) == (cam["width"], cam["height"]), what + ": camera of an image", got=im["camera_type"], want=kind)
            if all(n in cam for n in ("focal", "k1", "k2")):
                close(chk, im["camera_parameters"], [cam[n] for n in ("focal", "k1", "k2")], 1e-12, what + ": parameters of the camera of an image")
            chk.expect(im.get("exif_orientation") == shot.get("orientation") and im.get("captured_at") == shot.get("capture_time") and im["atomic_scale"] == shot["scale"], what + ": facts of an image", got={n: im.get(n) for n in ("exif_orientation", "captured_at", "atomic_scale")})
            chk.expect(im["merge_id"] == (None if shot.get("merge_cc") is None else str(shot["merge_cc"])), what + ": part of an image", got=im["merge_id"])
            chk.expect(im["cluster"]["id"] == "cluster_%d" % k and im["cluster"]["url"] == "cluster_%d" % k and im["id"] == u, what + ": cluster of an image", got=im["cluster"])
            chk.expect(out["sequences"][u] == {"id": im["sequence"]["id"], "image_ids": [u]}, what + ": sequence of an image", got=out["sequences"][u])
            # its picture
            x = urlsplit(im["thumb"]["url"])
            path = options.get("imagePath")
            chk.expect(path is None or (x.scheme + "://" + x.netloc, unquote(x.path), x.query, x.fragment) == (HOST, "/" + (path or "").strip("/") + "/" + s, "", "") and "?" not in im["thumb"]["url"] and "#" not in im["thumb"]["url"], what + ": address of the picture of an image", got=im["thumb"]["url"], image=s)
            # its mesh, in the frame of the image and of the size of the original
            m = out["meshes"][u]
            V = np.array(shot.get("vertices", []), float).reshape(-1, 3)
            if len(V):
                chk.count("meshes judged")
            w = shot["scale"] * (V @ R.T + t)
            if chk.expect(len(m["vertices"]) == 3 * len(V) and m["faces"] == [q for f_ in shot.get("faces", []) for q in f_], what + ": mesh of an image", vertices=len(m["vertices"]), want=3 * len(V)) and len(V):
                close(chk, np.array(m["vertices"], object).reshape(-1, 3), w, 1e-5 * (1 + np.abs(w).max() + shot["scale"] * (np.abs(V).max() + np.abs(t).max())), what + ": vertices of the mesh of an image")
    shots = sum(len(d["shots"]) for d, _ in want)
    points = sum(len(d.get("points", {})) for d, _ in want)
    chk.count("statistics")
    chk.expect("Total: %d images, %d points" % (shots, points) in out["stats"] and len(out["stats"]) == 3 + len(want), what + ": statistics", got=out["stats"], want=[shots, points])


def good(d):
    return len(d) > 0 and bool(d[0].get("cameras")) and bool(d[0].get("shots"))


def sessions(chk, rng, js):
    for i in range(chk.n(480, 24000)):
        options, answers, actions, want, what = {}, {}, [], [], "provider"
        files = []
        for k in range(int(rng.integers(1, 4))):
            data = [reconstruction(rng, images_of(rng, files)) for _ in range(int(rng.integers(1, 4)))]
            u = "data/%s/reconstruction%d.json" % (str(rng.choice(["a", "été", "b"])), k)
            files.append((u, data))
        images = bool(rng.random() < 0.8)
        if images:
            options["imagePath"] = str(rng.choice(["image", "image/", "data/x/image", "/image"]))
        if rng.random() < 0.5:
            chk.count("sessions from addresses")
            options["reconstructionPaths"] = []
            late = sorted(int(v) for v in rng.choice(8, len(files), replace=False))
            rng.shuffle(late)
            arrived = []
            for (u, data), delay in zip(files, late):
                path = str(rng.choice(["", "/"])) + u
                href = HOST + "/" + quote(u)
                options["reconstructionPaths"].append(path)
                fate = rng.random()
                if fate < 0.12:
                    answers[href] = {"error": True, "delay": 4 * delay}
                elif fate < 0.2:
                    answers[href] = {"delay": 4 * delay, "missing": True, "body": json.dumps(data)}
                elif fate < 0.28:
                    answers[href] = {"body": "[]", "delay": 4 * delay}
                else:
                    answers[href] = {"body": json.dumps(data), "delay": 4 * delay}
                    arrived.append((delay, data, {"url": href, "name": href}))
                if fate < 0.28:
                    chk.count("failed addresses")
            for _, data, f in sorted(arrived, key=lambda x: x[0]):
                want += [(d, f) for d in data]
            failed = not want
        else:
            failed = False
            if rng.random() < 0.3:
                actions.append(["add", json.dumps({"url": "x", "name": "x", "children": [], "data": files[0][1]}), None, "Not loaded"])
            if rng.random() < 0.3:
                bad = [[], {}, [{"cameras": {}}], [{"shots": {}}]][rng.integers(4)]
                actions.append(["load", json.dumps({"url": "x", "name": "x", "children": [], "data": bad}), None, "Not a reconstruction"])
            for k, (u, data) in enumerate(files):
                f = {"url": u, "name": os.path.basename(u), "children": []}
                op = "load" if k == 0 else "add"
                actions.append([op, json.dumps(dict(f, data=data)), bool(rng.random() < 0.3) if k == 0 else None, None])
                want += [(d, f) for d in data]
                chk.count("files loaded later" if k == 0 else "files added")
                if rng.random() < 0.2:
                    actions.append(["load", json.dumps(dict(f, data=data)), None, "Already loaded"])
                if rng.random() < 0.15:
                    broken = copy.deepcopy(data)
                    broken[-1]["shots"]["zzz"] = dict(next(iter(broken[-1]["shots"].values())), camera="no such camera")
                    actions.append(["add", json.dumps(dict(f, data=broken)), None, True])
        chk.case("session with the provider", {"files": [len(f) for _, f in files], "images": sum(len(d["shots"]) for _, f in files for d in f), "addresses": bool(answers)}, sig=(chk.shard, i) if want else None)
        chk.count("sessions")
        buffers = {}
        if images and rng.random() < 0.5:
            for d, _ in want:
                for s in d["shots"]:
                    buffers[HOST + "/" + options["imagePath"].strip("/") + "/" + quote(s, safe="!'()*")] = [1, 2, len(s)]
        if not failed:
            ok = chk.guard(lambda: js("provider", options=options, answers=answers, actions=[a[:3] for a in actions], settle=45, buffers=buffers), "session with the provider")
        else:
            ok = chk.guard(lambda: js("provider", options=options, answers=answers, actions=[], settle=45), "session with the provider")
        if not ok[0]:
            return
        out = ok[1]
        if not chk.expect("ok" in out, "the provider failed", error=out.get("failed", "")[:300], mechanism=None):
            continue
        out = out["ok"]
        for (op, text, _, refusal), r in zip(actions, out["outcomes"]):
            if refusal:
                chk.count("refused files")
                chk.expect("error" in r and (refusal is True or r["error"] == refusal) and r["kept"] and not r["events"], "refusal of a file", got=r, want=refusal)
            elif chk.expect(r.get("done"), "file refused", got=r):
                types = [e["type"] for e in r["events"]]
                if op == "add":
                    # the cells and clusters of this file
                    mine = {u.split("|", 1)[0] for u in out["names"]} & set(r["events"][-1]["clusters"] or [])
                    ids = {im["id"] for c in out["cells"].values() for im in c["images"]}
                    where = sorted(k for k, c in out["cells"].items() if any(im["cluster"]["id"] in mine for im in c["images"]))
                    chk.count("cells announced", len(where))
                    chk.expect(sorted(r["events"][0]["cells"] or []) == where and len(r["events"][-1]["clusters"] or []) == len(json.loads(text)["data"]) and ids == set(out["names"]), "cells and clusters announced", got=r["events"], want=where)
                chk.expect(types == (["load"] if op == "load" else ["datacreate", "opensfmdatacreate"]) and all(e["target"] and e["loaded"] for e in r["events"]), "announcements of a file", got=r["events"], op=op)
        chk.expect(out["state"][-1] == {"loaded": bool(want), "loading": False}, "state of the provider", got=out["state"])
        if answers:
            # what was asked before anything was there is answered when it is
            e = out["early"]
            chk.expect(("error" in e) if failed else (e.get("r") == {"cell_id": "none", "images": []} and e["n"] > 0), "answer to an early question", got=e, failed=failed)
            chk.expect(sorted(out["requests"]) == sorted(answers), "addresses asked", got=out["requests"], want=sorted(answers))
        if not want:
            chk.expect(not out["names"] and not out["clusters"], "images of a provider without files", got=out["names"])
            continue
        judge(chk, out, want, options, what)
        for u, b in out["buffers"].items():
            s = u.split("|", 1)[1]
            inventing = not images or any(a[0] == "load" and a[2] and not a[3] for a in actions)
            if inventing or s and not buffers:
                chk.count("invented images")
                chk.expect(b == [9, 9, 9], "invented picture of an image", got=b)
            else:
                chk.expect(b == [1, 2, len(s)], "picture of an image", got=b, image=s)


def addresses(chk, rng, js):
    word = lambda: "".join(str(rng.choice(list("abz09_/.-é日 +%&=#?|:'"))) for _ in range(int(rng.integers(1, 9))))
    for i in range(chk.n(400, 8000)):
        pars = {}
        if rng.random() < 0.6:
            pars["file"] = [word() + str(rng.choice(["reconstruction.json", "reconstruction.json", "rec"])) for _ in range(int(rng.choice([1, 1, 2, 3])))]
        if rng.random() < 0.4:
            pars["img"] = ["cluster_0|" + word()]
        if rng.random() < 0.4:
            pars["image"] = [word()]
        for _ in range(int(rng.integers(0, 3))):
            pars[str(rng.choice(["size", "x y", "é", "a&b"]))] = [word()]
        val = lambda s: enc(s) if rng.random() < 0.5 else enc(s).replace("%3D", "=")
        enc = lambda s: quote(s, safe=str(rng.choice(["", "/:|'"]))).replace("%20", str(rng.choice(["+", "%20"])))
        h = "&".join(enc(k) + "=" + ",".join(val(x) for x in v) for k, v in pars.items())
        h = "#" + h if h else str(rng.choice(["", "#"]))
        loc = {"protocol": str(rng.choice(["http:", "https:"])), "host": str(rng.choice(["localhost:8080", "a.b"]))}
        chk.case("address of the page", {"hash": h}, sig=(chk.shard, "a", i) if pars else None)
        r = js("params", hash=h, location=loc)
        if not chk.expect("ok" in r, "address of the page", error=r.get("failed", "")[:300], hash=h):
            continue
        chk.count("addresses of pages")
        p, o = r["ok"]["params"], r["ok"]["options"]
        chk.expect(p == {k: v if len(v) > 1 else v[0] for k, v in pars.items()}, "parameters in the address of the page", got=p, want=pars, hash=h)
        f = pars.get("file")
        path = pars["image"][0] if "image" in pars else f[0].rsplit("/", 1)[0] + "/image" if f and len(f) == 1 and "/" in f[0] else "image"
        chk.expect(o == {"endpoint": loc["protocol"] + "//" + loc["host"], "imagePath": path, "reconstructionPaths": f}, "options from the address of the page", got=o, want=path)


def lists(chk, rng, js):
    """What is selected from the list of the server is what the server has."""
    s = server()
    for i in range(chk.n(80, 1600)):
        root = os.path.join(chk.tmp, "d%d" % i)
        os.makedirs(os.path.join(root, "images"))
        files = {}
        for k in range(int(rng.integers(1, 7))):
            f = str(rng.choice(["", "a b", "x#y", "50%", "q?r", "été", "%41", "a+b", "c&d", "e;f", "[g]"]))
            os.makedirs(os.path.join(root, f), exist_ok=True)
            files[os.path.join(f, "reconstruction%s.json" % str(rng.choice(["", ".%d" % k, " #%d" % k, "?%d" % k, "%%2F%d" % k, "é%d" % k])))] = k
        files = {p: json.dumps([{"n": k}]) for k, p in enumerate(sorted(files))}
        for p, b in files.items():
            with open(os.path.join(root, p), "w") as f:
                f.write(b)
        ims = images_of(rng, [])
        for n in ims:
            with open(os.path.join(root, "images", n), "wb") as f:
                f.write(n.encode())
        chk.case("selection", {"files": sorted(files)}, sig=(chk.shard, "l", i))
        chk.count("selections")
        s.datapath = root
        client = s.app.test_client()
        items = client.get("/items").get_data(as_text=True)
        rounds = [sorted(int(v) for v in rng.choice(len(files), int(rng.integers(1, len(files) + 1)), replace=False)) for _ in range(int(rng.integers(1, 4)))]
        r = js("select", items=items, rounds=[r + ([r[0], r[0]] if rng.random() < 0.3 else []) for r in rounds])
        if not chk.expect("ok" in r, "selection of files", error=r.get("failed", "")[:300]):
            continue
        r = r["ok"]
        chk.expect(r["cancelled"] == "CancelledError", "selection that was cancelled", got=r["cancelled"])
        order = sorted(files)
        for picks, out in zip(rounds, r["rounds"]):
            chk.expect(out["listed"] == order, "files listed in the page", got=out["listed"], want=order)
            chk.expect([k for k, v in enumerate(out["marked"]) if v] == picks, "files marked in the page", got=out["marked"], want=picks)
            if not chk.expect(len(out["requests"]) == len(picks), "files asked from the server", got=out["requests"], want=len(picks)):
                continue
            for k, u in zip(picks, out["requests"]):
                x = urlsplit(u)
                a = client.get(x.path + ("?" + x.query if x.query else ""))
                chk.count("files selected from the server")
                chk.expect(a.status_code == 200 and a.get_data(as_text=True) == files[order[k]], "file that was selected", url=u, file=order[k], got=a.status_code)
        # pictures
        d = {"cameras": {"c": {"projection_type": "perspective", "width": 4, "height": 3, "focal": 1, "k1": 0, "k2": 0}}, "points": {},
             "shots": {n: {"rotation": [0.1, 0, 0], "translation": [0, 0, 0], "camera": "c", "vertices": [], "faces": [], "scale": 1} for n in ims}}
        r = js("provider", options={"imagePath": "image"}, actions=[["load", json.dumps({"url": "x", "name": "x", "children": [], "data": [d]}), None]])
        if chk.expect("ok" in r, "the provider failed", error=r.get("failed", "")[:300]):
            for e in r["ok"]["spatial"]:
                n = e["node_id"].split("|", 1)[1]
                x = urlsplit(e["node"]["thumb"]["url"])
                a = client.get(x.path + ("?" + x.query if x.query else ""))
                chk.count("thumbnails fetched from the server")
                chk.expect(a.status_code == 200 and a.data == n.encode(), "picture of an image from the server", url=e["node"]["thumb"]["url"], image=n, got=a.status_code)
        s.datapath = None
        shutil.rmtree(root)


def run(chk):
    js = Viewer()
    try:
        sessions(chk, chk.rng_for("sessions"), js)
        addresses(chk, chk.rng_for("addresses"), js)
        lists(chk, chk.rng_for("lists"), js)
    finally:
        js.close()
