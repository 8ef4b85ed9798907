"""C36: the annotation tool shows, changes and saves the control points its user sees."""
import contextlib
import copy
import html.parser
import io as pyio
import json
import mimetypes
import os
import queue
import shutil
import subprocess
import sys
import threading
import types as pytypes
from unittest import mock
from urllib.parse import quote

import numpy as np

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["launches", "launches without control points", "launches by reconstruction", "pages opened", "syncs", "points listed", "points added", "points removed", "points selected", "annotations made", "annotations corrected",
            "annotations removed", "clicks without a point", "stale messages", "saves", "loads", "loads of another file", "loads without the selected point", "loads without a file", "restarts", "images shown", "images with transparency",
            "marks judged", "models annotated", "model syncs", "analyses", "analyses refused", "requests for files outside", "images of the selected point", "launches refused"]
RULE = ("one case = one session with the tool: its server, its pages run by a JavaScript engine with stand-ins for the browser, and up to 60 random actions of the user; after each action every page and, after saving, the file are compared with a model; "
        "sessions without annotations count too")
ASSUMPTIONS = ["one user at a time with every page open", "names of images have no #, ? or %, and are not numbers", "a point is annotated once per image in a loaded file", "stand-ins replace python-magic, rasterio and the analysis program"]

SECRET = b"nobody may see this: 77b1"
WAIT = 20


class Engine:
    """The pages of the tool, in a JavaScript engine."""

    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "pages.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def __call__(self, **cmd):
        self.p.stdin.write(json.dumps(cmd) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def close(self):
        self.p.stdin.close()
        self.p.wait(10)


class Stream:
    """The events a page receives."""

    def __init__(self, app, url):
        self.q, self.stop = queue.Queue(), False
        self.status = self.type = None

        def listen():
            # the answer of the test client only begins with the first message
            r = app.test_client().get(url, buffered=False)
            self.status, self.type = r.status_code, r.mimetype
            for m in r.response:
                if self.stop:
                    break
                self.q.put(m if isinstance(m, str) else m.decode())

        threading.Thread(target=listen, daemon=True).start()

    def next(self):
        try:
            m = self.q.get(timeout=WAIT)
        except queue.Empty:
            return None
        kind = data = None
        for line in m.split("\n"):
            if line.startswith("event: "):
                kind = line[7:]
            elif line.startswith("data: "):
                data = line[6:]
        return kind, data, m


class Links(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__()
        self.scripts, self.styles, self.frames = [], [], []
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "script":
            self.scripts.append(a.get("src"))
        elif tag == "link":
            self.styles.append(a.get("href"))
        elif tag == "iframe":
            self.frames.append(a.get("src"))


def warp(src, dst, xs, ys, zs):
    """Stand-in for a change of coordinates: metres of a grid <-> degrees."""
    if dst == "EPSG:4326":
        return [x / 1e5 for x in xs], [y / 1e5 for y in ys], list(zs)
    return [x * 1e5 for x in xs], [y * 1e5 for y in ys], list(zs)


def stand_ins():
    magic = pytypes.ModuleType("magic")

    class Magic:
        def __init__(self, mime=False):
            pass

        def from_file(self, p):
            return mimetypes.guess_type(p)[0] or "application/octet-stream"

    magic.Magic = Magic
    sys.modules["magic"] = magic
    rasterio, w = pytypes.ModuleType("rasterio"), pytypes.ModuleType("rasterio.warp")
    w.transform = warp
    rasterio.warp = w
    sys.modules["rasterio"], sys.modules["rasterio.warp"] = rasterio, w


def tool():
    repo = os.environ.get("VERIF_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    stand_ins()
    from annotation_gui_gcp import main

    return main


def position(rng):
    """A position as in a file of control points, and as the tool keeps it."""
    p = {"latitude": float(rng.uniform(-80, 80)), "longitude": float(rng.uniform(-180, 180))}
    if rng.random() < 0.6:
        p["altitude"] = float(rng.choice([0.0, float(rng.normal() * 100)]))
    if rng.random() < 0.4:
        p["horizontal_std"] = float(rng.uniform(0.1, 5))
    if rng.random() < 0.3:
        p["vertical_std"] = float(rng.uniform(0.1, 5))
    if rng.random() < 0.5:
        p["measured_at"] = int(rng.integers(0, 10**9))
    return p, dict({"horizontal_std": 100}, **p)


def random_file(rng, images, k0):
    """Control points of a file, and the model of it."""
    raw, model = [], {}
    ids = []
    for k in range(int(rng.integers(0, 6))):
        ids.append(str(rng.choice(["gcp_%d" % (k + k0), str(k), str(9 - k), "my point %d" % k, "é%d" % k])))
    for pid in dict.fromkeys(ids):
        p = {"id": pid, "observations": []}
        obs = {}
        for im in rng.permutation(images)[: int(rng.integers(0, 4))]:
            xy = [float(v) for v in rng.uniform(-0.4, 0.4, 2)]
            o = {"shot_id": str(im), "projection": xy}
            if rng.random() < 0.7:
                o["precision"] = float(rng.uniform(0.001, 0.01))
            p["observations"].append(o)
            obs[str(im)] = (xy, o.get("precision", 0.004))
        if not obs and rng.random() < 0.5:
            del p["observations"]
        geo = None
        if rng.random() < 0.6:
            p["position"], geo = position(rng)
        raw.append(p)
        model[pid] = {"obs": obs, "geo": geo}
    return {"points": raw}, model


def as_json(model):
    out = []
    for pid, v in model.items():
        p = {"id": pid, "observations": [{"shot_id": s, ("projection" if len(x) == 2 else "point"): list(x), "precision": pr} for s, (x, pr) in v["obs"].items()]}
        if v["geo"]:
            p["position"] = v["geo"]
        out.append(p)
    return out


def near(a, b):
    """Equality of JSON values up to rounding."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


class World:
    """A dataset for the tool."""

    def __init__(self, chk, rng, i):
        from PIL import Image

        self.home = os.path.join(chk.tmp, "w%d" % i)
        self.path = os.path.join(self.home, "data")
        os.makedirs(os.path.join(self.path, "images"))
        with open(os.path.join(self.home, "secret.jpg"), "wb") as f:
            f.write(SECRET)
        with open(os.path.join(self.path, "secret.jpg"), "wb") as f:
            f.write(SECRET)
        self.sizes, self.modes = {}, {}
        self.seqs = {}
        self.cads = []
        n = 0
        gone = []
        for s in range(int(rng.integers(1, 4))):
            seq = []
            for _ in range(int(rng.integers(1, 5))):
                mode = str(rng.choice(["RGB", "RGB", "L", "RGBA", "P", "LA"]))
                name = str(rng.choice(["im%d", "an image %d", "é%d", "a+b%d"])) % n + (str(rng.choice([".jpg", ".JPG", ".jpeg"])) if mode in ("RGB", "L") else ".png")
                n += 1
                # names that differ only by their case, or that are part of one another
                prior = [k for k in self.sizes if self.modes[k] in ("RGB", "L")]
                if prior and rng.random() < 0.3:
                    k = str(rng.choice(prior))
                    stem, ext = os.path.splitext(k)
                    alt = str(rng.choice([k.swapcase(), "x" + k, k + ".jpg", stem + ext.upper()]))
                    if alt not in self.sizes:
                        name, mode = alt, "RGB"
                big = rng.random() < 0.05
                size = [int(v) for v in (rng.integers(1100, 1500, 2) if big else rng.integers(20, 120, 2))]
                base = np.kron(rng.integers(30, 220, (3, 4, 3)), np.ones((-(-size[1] // 3), -(-size[0] // 4), 1)))[: size[1], : size[0]].astype("uint8")
                im = Image.fromarray(base).convert(mode if mode != "LA" else "L")
                if mode in ("RGBA", "LA"):
                    im = im.convert(mode)
                im.save(os.path.join(self.path, "images", name), **({"quality": 95} if mode in ("RGB", "L") else {}))
                self.sizes[name], self.modes[name] = size, mode
                seq.append(name)
                if rng.random() < 0.1:
                    gone.append("gone%d.jpg" % n)
                    seq.append(gone[-1])
            self.seqs["seq_%d" % s] = seq
        if rng.random() < 0.2:
            self.seqs["empty"] = ["never.jpg"]
            gone.append("never.jpg")
        self.gone = gone
        self.images = sorted(self.sizes)
        self.seqfile = "sequence_database.json" if rng.random() < 0.7 else "my sequences.json"
        with open(os.path.join(self.path, self.seqfile), "w") as f:
            json.dump(self.seqs, f)
        self.views = [[k for k in s if k not in gone] for s in self.seqs.values()]
        self.views = [v for v in self.views if v]
        if rng.random() < 0.3:
            with open(os.path.join(self.path, "rig_assignments.json"), "w") as f:
                json.dump({"r%d" % k: [[im, "cam"]] for k, im in enumerate(self.images)}, f)
        if rng.random() < 0.5:
            os.makedirs(os.path.join(self.path, "exif"))
            for im in self.images:
                if rng.random() < 0.6:
                    with open(os.path.join(self.path, "exif", im + ".exif"), "w") as f:
                        json.dump({"gps": {"latitude": 1.0, "longitude": 2.0}} if rng.random() < 0.6 else {}, f)
        self.args = [self.path]
        if self.seqfile != "sequence_database.json":
            self.args += ["--sequence-file", self.seqfile]
        self.recs = 0
        self.grouped = False
        if rng.random() < 0.5:
            self.reconstructions(chk, rng)
        if rng.random() < 0.25:
            self.models(rng)
        self.file = os.path.join(self.path, "ground_control_points.json")
        self.saved = None
        if rng.random() < 0.7:
            self.write(rng)

    def write(self, rng):
        raw, model = random_file(rng, self.images, int(rng.integers(0, 3)))
        with open(self.file, "w") as f:
            json.dump(raw, f)
        self.saved = copy.deepcopy(model)

    def reconstructions(self, chk, rng):
        from opensfm import dataset, geo, pygeometry, types

        data = dataset.DataSet(self.path)
        recs, left = [], list(rng.permutation(self.images))
        for r in range(int(rng.integers(1, 5))):
            take = left[: int(rng.integers(1, max(2, len(self.images) // 2)))]
            left = left[len(take):]
            if not take:
                break
            rec = types.Reconstruction()
            rec.reference = geo.TopocentricConverter(20.0, 10.0, 0.0)
            cam = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
            cam.id = str(rng.choice(["cam", "other"]))
            rec.add_camera(cam)
            for im in take:
                rec.create_shot(str(im), cam.id, pygeometry.Pose())
                rec.shots[str(im)].metadata.capture_time.value = float(rng.integers(0, 4))
            recs.append(rec)
        data.save_reconstruction(recs)
        self.recs = len(recs)
        if rng.random() < 0.6:
            self.grouped = True
            self.args.append("--group-by-reconstruction")
            least = 50
            if rng.random() < 0.7:
                least = int(rng.integers(1, 4))
                self.args += ["--min-images-in-reconstruction", str(least)]
            if rng.random() < 0.3:
                os.remove(os.path.join(self.path, self.seqfile))
                where = {}
            else:
                where = {im: s for s, v in self.seqs.items() for im in v}
            kept = [r for k, r in enumerate(recs) if k < 2 or len(r.shots) >= least]
            self.views = []
            for r in kept:
                groups = {}
                for im in sorted(r.shots, key=lambda s: (r.shots[s].metadata.capture_time.value, s)):
                    groups.setdefault(where.get(im), []).append(im)
                self.views += list(groups.values())

    def models(self, rng):
        folder = os.path.join(self.home, "cad")
        os.makedirs(os.path.join(folder, "sub"))
        with open(os.path.join(self.path, "reference_lla.json"), "w") as f:
            json.dump({"latitude": 20.0, "longitude": 10.0, "altitude": 0.0}, f)
        self.cad_meta = {}
        order = rng.permutation(3)
        for k in order[: int(rng.integers(1, 4))]:
            name = "model%d%s" % (k, rng.choice([".fbx", ".FBX"]))
            p = os.path.join(folder, str(rng.choice(["", "sub"])), name)
            with open(p, "wb") as f:
                f.write(b"cad %d" % k)
            d = (k + 1) * 0.01 * np.array([np.cos(k), np.sin(k)])
            meta = {"scale": float(rng.choice([1.0, 100.0])), "crs": "EPSG:32633", "offset": [float(v) for v in rng.normal(size=3) * 50], "center": {"latitude": 20.0 + d[0], "longitude": 10.0 + d[1]}}
            with open(os.path.splitext(p)[0] + ".json", "w") as f:
                json.dump(meta, f)
            self.cad_meta[name] = (float(np.linalg.norm(d)), meta, b"cad %d" % k)
        self.cads = sorted(self.cad_meta, key=lambda n: self.cad_meta[n][0])[:1]
        self.args += ["--cad", folder]


class Session:
    """The tool and its user."""

    def __init__(self, chk, rng, world, engine):
        self.chk, self.rng, self.w, self.js = chk, rng, world, engine
        self.alive = False
        self.streams = {}
        self.model = copy.deepcopy(world.saved) if world.saved is not None else {}
        self.selected = None

    def launch(self):
        chk, w = self.chk, self.w
        m = tool()
        with mock.patch.object(sys, "argv", ["main.py"] + w.args):
            ok, r = chk.guard(m.init_ui, "launching the annotation tool", args=w.args)
        if not ok:
            return False
        chk.count("launches")
        chk.count("launches without control points", w.saved is None)
        chk.count("launches by reconstruction", w.grouped)
        self.app = r[0]
        self.client = self.app.test_client()
        self.seq = ["/sequence_view_%d" % (k + 1) for k in range(len(w.views))]
        self.cp = "/current_cp_view"
        self.cad = ["/cad_view_%d" % (k + 1) for k in range(len(w.cads))]
        r = self.client.get("/")
        links = Links(r.get_data(as_text=True))
        if not chk.expect(r.status_code == 200 and links.frames == ["/tools"] + self.seq + [self.cp] + self.cad, "panes of the annotation tool", got=links.frames, want=self.seq):
            return False
        self.js(cmd="reset")
        self.boxes = {}
        self.shown = {}
        self.at = {}
        for url in ["/tools"] + self.seq + [self.cp] + self.cad:
            r = self.client.get(url)
            if not chk.expect(r.status_code == 200, "page of the annotation tool", url=url, got=r.status_code):
                return False
            links = Links(r.get_data(as_text=True))
            scripts = []
            for s in links.scripts + links.styles:
                q = self.client.get(s)
                if not chk.expect(q.status_code == 200, "script or style of a page", url=s, got=q.status_code):
                    return False
                if s in links.scripts:
                    scripts.append(q.get_data(as_text=True))
            chk.count("pages opened")
            self.streams[url] = Stream(self.app, url + "/stream")
            if url in self.cad:
                continue
            self.at[url] = [int(v) for v in self.rng.integers(0, 40, 2)]
            out = self.js(cmd="open", page=url, href="http://localhost" + url, scripts=scripts, width=int(self.rng.integers(400, 1500)), height=int(self.rng.integers(300, 1000)), left=self.at[url][0], top=self.at[url][1],
                          elements={"pointListBox": "dropdown", "addCP": "button", "delCP": "button", "rigid": "button", "flex": "button", "full": "button", "load": "button", "save": "button"} if url == "/tools" else {"imgCanvas": "canvas", "imageSelectBox": "listbox"})
            if not chk.expect(out["error"] is None and out["sources"] == ["http://localhost" + url + "/stream"], "start of a page", url=url, error=out["error"], got=out["sources"]):
                return False
            self.alive = True
            if not self.deliver(out):
                return False
        if not self.sync(2 + len(self.seq)):
            return False
        return all([chk.expect(st.status == 200 and st.type == "text/event-stream", "events of a page", url=u, got=(st.status, st.type)) for u, st in self.streams.items()])

    def deliver(self, out, want=1):
        """Send what a page posts to the server; whether it went well."""
        chk = self.chk
        if not chk.expect(out["error"] is None, "script of a page failed", error=out["error"]):
            return False
        if not chk.expect(len(out["posts"]) == want, "messages of a page", got=out["posts"], want=want):
            return False
        for url, method, headers, body in out["posts"]:
            r = self.post(url[len("http://localhost"):], body, headers, method)
            if not chk.expect(r == 200, "answer to a page", url=url, body=body[:300], got=r):
                return False
        return True

    def post(self, url, body, headers={"Content-Type": "application/json"}, method="POST"):
        with contextlib.redirect_stdout(pyio.StringIO()):
            return self.client.open(quote(url), method=method, data=body.encode(), headers=headers).status_code

    def sync(self, n=1):
        """Every page receives the state of the tool; compare it with the model."""
        chk, m = self.chk, self.model
        for u, st in self.streams.items():
            for _ in range(n):
                got = st.next()
                if not chk.expect(got is not None and got[0] == "sync", "state sent to a page", url=u, got=None if got is None else got[2][:200]):
                    return False
            chk.count("syncs")
            d = json.loads(got[1])
            if not chk.expect(d["selected_point"] == self.selected, "selected point of a page", url=u, got=d["selected_point"], want=self.selected):
                return False
            if u in self.cad:
                name = self.w.cads[0]
                want = {p: {"coordinates": list(v["obs"][name][0]), "precision": v["obs"][name][1]} for p, v in m.items() if name in v["obs"]}
                have = {p: {k: a.get(k) for k in ("coordinates", "precision")} for p, a in d["annotations"].items()}
                chk.count("model syncs")
                if not chk.expect(near(have, want), "annotations of a model", got=have, want=want):
                    return False
                continue
            if u == "/tools":
                if not chk.expect(near(d["points"], as_json(m)), "points sent to the tool box", got=d["points"], want=as_json(m)):
                    return False
            else:
                if u == self.cp:
                    here = list(m[self.selected]["obs"]) if self.selected in m else []
                    apart = [s for s in here if not any(s in v for v in self.w.views)]
                    images = apart + [s for s in here if s not in apart]
                    chk.count("images of the selected point", len(here))
                else:
                    images = self.w.views[self.seq.index(u)]
                if not chk.expect(list(d["points"]) == images, "images of a page", url=u, got=list(d["points"]), want=images):
                    return False
                want = {im: {p: list(v["obs"][im][0]) + [v["obs"][im][1]] for p, v in m.items() if im in v["obs"]} for im in images}
                if not chk.expect(near(d["points"], want), "annotations sent to a page", url=u, got=d["points"], want=want):
                    return False
                if not chk.expect(set(d["colors"]) == set(m), "colours of the points", got=sorted(d["colors"]), want=sorted(m)):
                    return False
            out = self.js(cmd="event", page=u, type="sync", data=got[1])
            if not chk.expect(out["error"] is None and not out["posts"], "state shown by a page", url=u, error=out["error"], posts=out["posts"]):
                return False
            if not self.look(u, out):
                return False
        return True

    def look(self, u, out):
        """What the user sees on a page."""
        chk, m = self.chk, self.model
        if u == "/tools":
            b = out["boxes"]["pointListBox"]
            chk.count("points listed", len(m))
            self.boxes[u] = b
            ok = chk.expect(b["values"] == list(m), "points in the tool box", got=b["values"], want=list(m))
            ok = ok and chk.expect(all(p in t for p, t in zip(m, b["texts"])), "labels of the points in the tool box", got=b["texts"], want=list(m))
            return ok and chk.expect((b["values"][b["index"]] if b["index"] >= 0 else None) == self.selected, "point shown as selected", got=b, want=self.selected)
        b = out["boxes"]["imageSelectBox"]
        self.boxes[u] = b
        im = self.shown.get(u)
        if im is not None and im not in b["values"]:
            im = self.shown[u] = None
        if not chk.expect(len(out["drawn"]) == 0 if im is None else True, "marks without an image", url=u, got=len(out["drawn"])):
            return False
        if im is None:
            return True
        W, H = self.loaded[u]
        scale = min(out["canvas"][0] / W, out["canvas"][1] / H)
        self.scale = scale
        ok = chk.expect(out["shown"] is not None and near(out["shown"][1:], [0, 0, W * scale, H * scale]), "image on the page", got=out["shown"], want=[W * scale, H * scale])
        want = []
        for p, v in m.items():
            if im in v["obs"] and len(v["obs"][im][0]) == 2:
                (x, y), pr = v["obs"][im]
                want.append(((W / 2 + x * max(W, H)) * scale, (H / 2 + y * max(W, H)) * scale, pr * max(W, H) * scale))
        centres = sorted((round(x, 6), round(y, 6)) for x, y, _ in want for _ in range(2))
        got = sorted((round(x, 6), round(y, 6)) for x, y, _ in out["drawn"])
        chk.count("marks judged", len(want))
        ok = ok and chk.expect(len(centres) == len(got) and (not centres or np.abs(np.array(centres) - np.array(got)).max() < 1e-4), "marks on an image", url=u, image=im, got=got, want=centres)
        named = sorted(t for t, _, _ in out["texts"])
        return ok and chk.expect(named == sorted(p for p, v in m.items() if im in v["obs"] and len(v["obs"][im][0]) == 2), "names on an image", got=named)

    def close(self):
        for s in self.streams.values():
            s.stop = True
        if self.alive:
            self.post("/tools/postdata", json.dumps({"event": "init"}))

    # what the user does

    def add(self):
        before = set(self.model)
        r = self.js(cmd="click", page="/tools", id="addCP")
        if not self.deliver(r):
            return False
        # the new point is named by the tool
        t = self.streams["/tools"].next()
        if not self.chk.expect(t is not None, "state after adding a point"):
            return False
        d = json.loads(t[1])
        new = d["selected_point"]
        if not self.chk.expect(isinstance(new, str) and new not in before, "identifier of a new point", got=new, have=sorted(before)):
            return False
        self.streams["/tools"].q.queue.appendleft(t[2])
        self.model[new] = {"obs": {}, "geo": None}
        self.selected = new
        self.chk.count("points added")
        return self.sync()

    def delete(self):
        if not self.deliver(self.js(cmd="click", page="/tools", id="delCP")):
            return False
        if self.selected is not None:
            self.chk.count("points removed")
            self.model.pop(self.selected, None)
            self.selected = None
        return self.sync()

    def select(self):
        if not self.model:
            return True
        k = int(self.rng.integers(len(self.model)))
        if not self.deliver(self.js(cmd="select", page="/tools", id="pointListBox", index=k)):
            return False
        self.selected = list(self.model)[k]
        self.chk.count("points selected")
        return self.sync()

    def show(self, u, by_wheel=False):
        """Choose an image on a page and load it."""
        from PIL import Image

        chk, rng = self.chk, self.rng
        names = self.boxes[u]["values"]
        # a model is listed with the images of the selected point, but can't be shown as one
        can = [k for k, s in enumerate(names) if s in self.w.sizes]
        if not can:
            return True
        old = self.shown.get(u)
        if by_wheel and old is not None and len(can) == len(names):
            step = int(rng.choice([-1, 1]))
            k = names.index(old) + (-1 if step > 0 else 1)
            out = self.js(cmd="wheel", page=u, delta=step * 3)
            if not 0 <= k < len(names):
                return chk.expect(not out["requests"] and out["error"] is None, "wheel at the end of the list", got=out["requests"])
        else:
            k = int(rng.choice(can))
            out = self.js(cmd="select", page=u, id="imageSelectBox", index=k)
        im = names[k]
        if not chk.expect(out["error"] is None and len(out["requests"]) == 1 and not out["posts"], "choice of an image", got=out["requests"], error=out["error"]):
            return False
        url = out["requests"][0][len("http://localhost"):]
        r = self.client.get(quote(url))
        if not chk.expect(r.status_code == 200, "image sent to a page", url=url, mode=self.w.modes[im], got=r.status_code):
            return False
        ok, pic = chk.guard(lambda: Image.open(pyio.BytesIO(r.data)).convert("RGB"), "reading an image sent to a page")
        if not ok:
            return False
        chk.count("images shown")
        chk.count("images with transparency", self.w.modes[im] in ("RGBA", "LA"))
        w, h = self.w.sizes[im]
        f = min(1, 1024 / max(w, h))
        if not chk.expect(abs(pic.size[0] - w * f) <= 1 and abs(pic.size[1] - h * f) <= 1, "size of an image sent to a page", got=pic.size, want=(w * f, h * f)):
            return False
        full = Image.open(os.path.join(self.w.path, "images", im)).convert("RGB").resize(pic.size)
        err = np.abs(np.asarray(full.convert("L"), float) - np.asarray(pic.convert("L"), float))
        if not chk.expect(np.median(err) < 20, "image sent to a page", image=im, error=float(np.median(err))):
            return False
        self.shown[u] = im
        self.loaded[u] = pic.size
        out = self.js(cmd="loaded", page=u, width=pic.size[0], height=pic.size[1])
        return chk.expect(out["error"] is None and not out["posts"], "image shown by a page", error=out["error"]) and self.look(u, out)

    def annotate(self, u, remove):
        chk, rng = self.chk, self.rng
        if self.shown.get(u) is None and not self.show(u):
            return False
        im = self.shown.get(u)
        if im is None:
            return True
        W, H = self.loaded[u]
        px = rng.uniform(0, 1, 2) * [W, H]
        out = self.js(cmd="loaded", page=u, width=W, height=H)
        scale = min(out["canvas"][0] / W, out["canvas"][1] / H)
        out = self.js(cmd="mouse", page=u, x=self.at[u][0] + px[0] * scale, y=self.at[u][1] + px[1] * scale, button=2 if remove else 0)
        if self.selected is None:
            chk.count("clicks without a point")
            return self.deliver(out, 0)
        if not self.deliver(out):
            return False
        obs = self.model[self.selected]["obs"]
        had = obs.pop(im, None)
        if remove:
            chk.count("annotations removed", had is not None)
        else:
            chk.count("annotations corrected" if had else "annotations made")
            obs[im] = ([(px[0] - W / 2) / max(W, H), (px[1] - H / 2) / max(W, H)], 0.004)
        return self.sync()

    def annotate_model(self, remove):
        name = self.w.cads[0]
        xyz = [float(v) for v in self.rng.normal(size=3) * 100]
        body = {"event": "remove_point_observation"} if remove else {"event": "add_or_update_point_observation", "xyz": xyz}
        r = self.post(self.cad[0] + "/postdata", json.dumps(body))
        if not self.chk.expect(r == 200, "annotation of a model", got=r, body=body):
            return False
        if self.selected is not None:
            self.chk.count("models annotated")
            v = self.model[self.selected]
            v["obs"].pop(name, None)
            if not remove:
                meta = self.w.cad_meta[name][1]
                east, up, south = xyz
                e, n, z = ((np.array([east, -south, up]) + meta["offset"]) / meta["scale"]).tolist()
                v["obs"][name] = (xyz, 100)
                v["geo"] = {"latitude": n / 1e5, "longitude": e / 1e5, "altitude": z, "horizontal_std": 100}
                got = self.streams["/tools"].next()
                if not self.chk.expect(got is not None, "state after annotating a model"):
                    return False
                self.streams["/tools"].q.queue.appendleft(got[2])
                for p in json.loads(got[1])["points"]:
                    if p["id"] == self.selected and "measured_at" in p.get("position", {}):
                        v["geo"]["measured_at"] = p["position"]["measured_at"]
        return self.sync()

    def stale(self):
        """A message for a point which isn't selected any more changes nothing."""
        other = [p for p in list(self.model) + ["none"] if p != self.selected]
        u = str(self.rng.choice(self.seq + [self.cp]))
        body = {"event": "add_or_update_point_observation", "point_id": str(self.rng.choice(other)), "xy": [0.1, 0.1], "norm_precision": 0.004, "image_id": str(self.rng.choice(self.w.images))}
        if self.rng.random() < 0.4:
            body = {"event": "remove_point_observation", "point_id": body["point_id"], "image_id": body["image_id"]}
        self.chk.count("stale messages")
        r = self.post(u + "/postdata", json.dumps(body))
        return self.chk.expect(r == 200, "answer to a stale message", got=r) and self.sync()

    def save(self):
        if not self.deliver(self.js(cmd="click", page="/tools", id="save")):
            return False
        self.chk.count("saves")
        ok, d = self.chk.guard(lambda: json.load(open(self.w.file)), "reading the saved points")
        if not ok or not self.chk.expect(near(d, {"points": as_json(self.model)}), "saved points", got=d, want=as_json(self.model)):
            return False
        self.w.saved = copy.deepcopy(self.model)
        return self.sync()

    def load(self):
        w, chk = self.w, self.chk
        if self.rng.random() < 0.4:
            w.write(self.rng)
            chk.count("loads of another file")
        if w.saved is None:
            out = self.js(cmd="click", page="/tools", id="load")
            for url, method, headers, body in out["posts"]:
                r = self.post(url[len("http://localhost"):], body, headers, method)
            chk.count("loads without a file")
            if r != 200:
                # nothing was loaded, nothing is lost
                r = self.post("/tools/postdata", json.dumps({"event": "init"}))
                if not chk.expect(r == 200, "after loading without a file", got=r):
                    return False
            return self.sync()
        if not self.deliver(self.js(cmd="click", page="/tools", id="load")):
            return False
        chk.count("loads")
        self.model = copy.deepcopy(w.saved)
        if self.selected not in self.model:
            chk.count("loads without the selected point", self.selected is not None)
            self.selected = None
        return self.sync()

    def analyse(self):
        w, chk = self.w, self.chk
        if not os.path.exists(w.file):
            return True
        kind = str(self.rng.choice(["rigid", "flex", "full"]))
        old = self.rng.random() < 0.3
        import time

        t = time.time() - (1000 if old else 0)
        os.utime(w.file, (t, t))
        calls = []
        with mock.patch.object(subprocess, "run", lambda a, **k: calls.append(a)):
            if not self.deliver(self.js(cmd="click", page="/tools", id=kind)):
                return False
        if old:
            chk.count("analyses refused")
            return chk.expect(not calls, "analysis of points saved long ago", got=calls) and self.sync()
        chk.count("analyses")
        if not chk.expect(len(calls) == 1, "runs of the analysis", got=calls):
            return False
        a = list(calls[0])
        flags = {x for x in a[3:] if x in ("--rigid", "--covariance")}
        chk.expect(a[0] == sys.executable and os.path.samefile(a[1], os.path.join(os.environ.get("VERIF_REPO", "/repo"), "annotation_gui_gcp", "run_ba.py")) and os.path.samefile(a[2], w.path), "program of the analysis", got=a[:3])
        chk.expect(flags == {"rigid": {"--rigid"}, "flex": set(), "full": {"--covariance"}}[kind], "kind of the analysis", got=a, kind=kind)
        rest = [x for x in a[3:] if x not in flags]
        pairs = dict(zip(rest[::2], rest[1::2]))
        chk.expect(pairs.get("--rec_a", "0") == "0" and pairs.get("--rec_b", "1") == "1" and set(pairs) <= {"--rec_a", "--rec_b"}, "reconstructions of the analysis", got=a)
        return self.sync()

    def pry(self):
        u = str(self.rng.choice(self.seq + [self.cp]))
        for up in ["../secret.jpg", "../../secret.jpg", "..%2Fsecret.jpg", "%2e%2e/secret.jpg", "..%2f..%2fsecret.jpg", "%2F" + self.w.path.lstrip("/") + "/secret.jpg", "x/../../secret.jpg"]:
            r = self.client.get("%s/image/%d/%s" % (u, 0 if self.rng.random() < 0.7 else 100, up))
            self.chk.count("requests for files outside")
            if not self.chk.expect(SECRET not in r.data and r.status_code in (404, 400, 403, 308), "request for a file outside of the images", url=up, got=r.status_code, body=r.data[:60]):
                return False
        r = self.client.get("%s/image/%d/missing.jpg" % (u, int(self.rng.choice([0, 100]))))
        if not self.chk.expect(r.status_code == 404, "request for a missing image", got=r.status_code):
            return False
        im = str(self.rng.choice(self.w.images))
        r = self.client.get("%s/image/0/%s" % (u, quote(im)))
        with open(os.path.join(self.w.path, "images", im), "rb") as f:
            return self.chk.expect(r.status_code == 200 and r.data == f.read(), "whole image", image=im, got=r.status_code)

    def step(self):
        rng = self.rng
        pages = self.seq + [self.cp]
        u = str(rng.choice(pages))
        x = rng.random()
        if self.cad and x < 0.15:
            return self.annotate_model(rng.random() < 0.25)
        if x < 0.20:
            return self.add()
        if x < 0.23:
            return self.delete()
        if x < 0.36:
            return self.select()
        if x < 0.44:
            return self.show(u, rng.random() < 0.4)
        if x < 0.76:
            return self.annotate(u, rng.random() < 0.25)
        if x < 0.80:
            return self.stale()
        if x < 0.88:
            return self.save()
        if x < 0.92:
            return self.load()
        if x < 0.96:
            return self.analyse()
        return self.pry()


def refused(chk, rng, world):
    """Launches that can't work say so."""
    m = tool()
    args = None
    if world.gone and not world.grouped:
        args = world.args + ["--strict-missing"]
        want = FileNotFoundError
    elif not world.grouped and world.seqfile == "sequence_database.json":
        args = world.args + ["--sequence-file", "nothing.json"]
        want = SystemExit
    if args is None:
        return
    got = None
    with mock.patch.object(sys, "argv", ["main.py"] + args), contextlib.redirect_stdout(pyio.StringIO()):
        try:
            m.init_ui()
        except BaseException as e:  # noqa: B036
            got = e
    chk.count("launches refused")
    chk.expect(isinstance(got, want), "launch that can't work", args=args, got=repr(got), want=want.__name__)


def run(chk):
    import logging

    logging.getLogger("werkzeug").setLevel(logging.CRITICAL)
    js = Engine()
    try:
        for i in range(chk.n(240, 9000)):
            rng = chk.rng_for("session", i)
            w = World(chk, rng, i)
            chk.case("session with the annotation tool", {"number": i, "images": len(w.images), "models": len(w.cads)}, sig=(chk.shard, i))
            with contextlib.redirect_stdout(pyio.StringIO()):
                if i % 3 == 0:
                    refused(chk, rng, w)
                s = Session(chk, rng, w, js)
                s.loaded = {}
                try:
                    good = s.launch()
                    n = int(rng.integers(10, 90))
                    for k in range(n if good else 0):
                        if rng.random() < 0.03:
                            s.close()
                            s = Session(chk, rng, w, js)
                            s.loaded = {}
                            chk.count("restarts")
                            good = s.launch()
                        else:
                            good = s.step()
                        if not good:
                            break
                finally:
                    s.close()
            if good and w.cads:
                r = s.client.get(s.cad[0] + "/model")
                chk.expect(r.status_code == 200 and r.data == w.cad_meta[w.cads[0]][2], "model sent to a page", got=r.status_code)
            shutil.rmtree(w.home)
    finally:
        js.close()
