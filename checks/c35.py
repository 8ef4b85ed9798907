"""C35: the viewer serves the dataset it was started for and nothing else."""
import json
import os
import shutil
import sys
from unittest import mock
from urllib.parse import quote, unquote

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 300, "thorough": 850}
REQUIRED = ["datasets", "lists judged", "reconstructions listed", "files fetched", "images fetched", "linked images fetched", "linked reconstructions", "missing files", "requests for files outside", "files fetched again after a change", "viewers without a dataset",
            "relative paths of datasets", "own files of the viewer"]
RULE = ("one case = one dataset with random folders and names served by the viewer, with its list of reconstructions, the bytes of all its files, and requests for missing files, folders and files beside the dataset; non-trivial when it has a reconstruction")
ASSUMPTIONS = ["requests arrive one after another", "links inside of the dataset belong to it"]

SECRET = b"nobody may see this: 5f0c9a"
WORDS = ["reconstruction", "reconstruction.meshed", "reconstruction_no_points", "aligned", "a b", "été", "50%", "x#1", "q?y", "plus+", "日本", "camera_models", "r.json.bak", "Reconstruction", "..dots", "semi;colon", "a&b", "refined-2"]
ENDINGS = [".json", ".json", ".jsonl", ".txt", "", ".json.gz", "json", ".JSON"]


def server():
    repo = os.environ.get("VERIF_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    from viewer import server

    return server


def populate(rng, root):
    """Files of a dataset, by path relative to it."""
    files = {}
    folders = [""]
    for _ in range(int(rng.integers(0, 4))):
        f = os.path.join(str(rng.choice(folders)), str(rng.choice(["sub", "undistorted", "a b", "été", "x%2Fy", "reconstructions", ".hidden", "c.json"])))
        if f not in folders:
            folders.append(f)
    folders.append("images")
    for f in folders:
        os.makedirs(os.path.join(root, f), exist_ok=True)
    for k in range(int(rng.integers(1, 12))):
        name = str(rng.choice(WORDS)) + ("" if rng.random() < 0.4 else str(k)) + str(rng.choice(ENDINGS))
        p = os.path.join(str(rng.choice(folders[:-1])), name)
        if os.path.isdir(os.path.join(root, p)):
            continue
        size = int(rng.choice([0, 1, 40, 5000])) if rng.random() < 0.98 else 300000
        files[p] = rng.integers(0, 256, size, dtype="uint8").tobytes()
    for k in range(int(rng.integers(0, 5))):
        files[os.path.join("images", "%s%d%s" % (rng.choice(["im", "a b ", "é", "%2e", "#", "x+"]), k, rng.choice([".jpg", ".JPG", ".png", ""])))] = rng.integers(0, 256, int(rng.integers(1, 3000)), dtype="uint8").tobytes()
    for p, b in files.items():
        with open(os.path.join(root, p), "wb") as f:
            f.write(b)
    return folders, files


def outside(rng, home, root):
    """Requests that point to files beside the dataset."""
    name = os.path.basename(root)
    target = str(rng.choice(["secret.txt", "reconstruction.json", name + "-other/secret.txt", name + ".txt"]))
    depth = int(rng.integers(1, 4))
    up = str(rng.choice(["..", "%2e%2e", ".%2e", "%2E."]))
    sl = str(rng.choice(["/", "%2f", "%2F"]))
    full = os.path.join(home, target)
    forms = [
        up + sl + target,
        up + sl + target.replace("/", sl),
        sl.join(["images"] + [up] * 2) + sl + target,
        sl.join(["no", "such"] + [up] * 3) + sl + target,
        "." + sl + up + sl + target,
        "%2F" + full.lstrip("/").replace("/", sl),
        "%2f%2F" + full.lstrip("/"),
        full,
        "images" + sl + up + sl + up + sl + up + sl + os.path.basename(home) + sl + target,
        sl.join([up] * (depth + 20)) + full.replace("/", sl),
        "..%5c" + target,
        up + sl + name + sl + up + sl + target,
        "%252e%252e%252f" + target,
    ]
    return str(rng.choice(["/data/", "/data/", "/data/", "/image/", "/"])) + str(rng.choice(forms))


def start(chk, s, args):
    """Run the viewer's main with a stand-in for the web server."""
    runs = []
    with mock.patch.object(s.app, "run", lambda *a, **k: runs.append((a, k))), mock.patch.object(sys, "argv", ["server.py"] + args):
        ok, _ = chk.guard(s.main, "starting the viewer", args=args)
    if not ok:
        return None
    if not chk.expect(len(runs) == 1, "starts of the web server", got=len(runs)):
        return None
    return runs[0][1]


def run(chk):
    s = server()
    own = os.path.dirname(os.path.abspath(s.__file__))
    here = os.getcwd()
    get = lambda path, **k: client.get(path, **k)
    for i in range(chk.n(240, 12000)):
        rng = chk.rng_for("viewer", i)
        home = os.path.join(chk.tmp, "home%d" % i)
        root = os.path.join(home, str(rng.choice(["data", "a b", "été", "data.json", "reconstruction"])))
        os.makedirs(root)
        folders, files = populate(rng, root)
        for p in ["secret.txt", "reconstruction.json", os.path.basename(root) + "-other/secret.txt", os.path.basename(root) + ".txt"]:
            os.makedirs(os.path.dirname(os.path.join(home, p)), exist_ok=True)
            with open(os.path.join(home, p), "wb") as f:
                f.write(SECRET)
        if rng.random() < 0.3:
            link = "linked.jpg"
            with open(os.path.join(home, "elsewhere.bin"), "wb") as f:
                f.write(b"linked image %d" % i)
            os.symlink(os.path.join(home, "elsewhere.bin"), os.path.join(root, "images", link))
        else:
            link = None
        links = {}
        while rng.random() < 0.35:
            # a reconstruction kept elsewhere
            p = os.path.join(str(rng.choice(folders[:-1])), "reconstruction.link%d.json" % len(links))
            t = str(rng.choice(sorted(files)))
            inside = rng.random() < 0.6
            if not inside:
                with open(os.path.join(home, "kept%d.json" % len(links)), "wb") as f:
                    f.write(b"kept %d" % len(links))
            target = os.path.join(root, t) if inside else os.path.join(home, "kept%d.json" % len(links))
            os.symlink(os.path.relpath(target, os.path.dirname(os.path.realpath(os.path.join(root, p)))) if rng.random() < 0.5 else target, os.path.join(root, p))
            links[p] = files[t] if inside else b"kept %d" % len(links)
        files.update(links)
        want = sorted(p for p in files if p.endswith("json") and ".json" in os.path.basename(p) and "reconstruction" in p)
        chk.case("dataset in the viewer", {"files": sorted(files)}, sig=(chk.shard, i) if want else None)
        chk.count("datasets")
        s.datapath = None
        client = s.app.test_client()
        if i % 5 == 0:
            chk.count("viewers without a dataset")
            if i % 10 == 0:
                k = start(chk, s, [])
                if k is None:
                    break
            r = get("/items")
            chk.expect(r.status_code == 200 and r.get_json() == {"items": []}, "list of a viewer without a dataset", got=r.data[:80])
            for p in ["/data/reconstruction.json", "/image/a.jpg", "/data/" + quote(os.path.join(root, "x"))]:
                ok, r = chk.guard(lambda: get(p).status_code, "viewer without a dataset")
                if ok:
                    chk.expect(r in (404, 308), "file of a viewer without a dataset", got=r, path=p)
        port = int(rng.integers(1024, 60000))
        try:
            if rng.random() < 0.5:
                os.chdir(home)
                given = os.path.join(str(rng.choice([".", "../" + os.path.basename(home)])), os.path.basename(root))
                chk.count("relative paths of datasets")
            else:
                given = root + str(rng.choice(["", "/"]))
            args = [str(rng.choice(["-d", "--dataset"])), given]
            if rng.random() < 0.7:
                args += [str(rng.choice(["-p", "--port"])), str(port)]
            else:
                port = 8080
            k = start(chk, s, args)
        finally:
            os.chdir(here)
        if k is None:
            continue
        chk.expect(k.get("port") == port, "port of the viewer", got=k.get("port"), want=port)
        ok, r = chk.guard(lambda: get("/items"), "listing the reconstructions")
        if not ok or not chk.expect(r.status_code == 200, "listing the reconstructions", got=r.status_code):
            continue
        items = r.get_json()["items"]
        chk.count("lists judged")
        chk.count("reconstructions listed", len(want))
        if chk.expect([x["name"] for x in items] == want, "reconstructions of the dataset", got=[x["name"] for x in items], want=want):
            for x in items:
                chk.expect(len(x["url"]) == 1 and unquote(x["url"][0]) == "data/" + x["name"] and x["type"] == "RECONSTRUCTION" and x["children"] == [], "entry of a reconstruction", got=x)
        for p in sorted(files):
            r = get("/data/" + quote(p))
            chk.count("files fetched")
            chk.expect(r.status_code == 200 and r.data == files[p], "file of the dataset", path=p, got=r.status_code, size=len(r.data), want=len(files[p]))
            if p.startswith("images/"):
                r = get("/image/" + quote(p[7:]))
                chk.count("images fetched")
                chk.expect(r.status_code == 200 and r.data == files[p], "image of the dataset", path=p, got=r.status_code, size=len(r.data), want=len(files[p]))
        if link:
            for u in ["/image/" + link, "/data/images/" + link]:
                r = get(u)
                chk.count("linked images fetched")
                chk.expect(r.status_code == 200 and r.data == b"linked image %d" % i, "linked image of the dataset", url=u, got=r.status_code)
        for u in ["/data/missing.json", "/image/missing.jpg", "/image/" + quote(os.path.basename(sorted(files)[0])), "/data/" + quote(folders[-1]), "/data/" + quote(folders[0] or "images"), "/data/images/none/x.jpg"]:
            if u.startswith("/image/") and "images/" + os.path.basename(sorted(files)[0]) in files:
                continue
            ok, r = chk.guard(lambda: get(u), "request for a missing file", url=u)
            if ok:
                chk.count("missing files")
                chk.expect(r.status_code == 404, "request for a missing file", url=u, got=r.status_code)
        for _ in range(14):
            u = outside(rng, home, root)
            ok, r = chk.guard(lambda: get(u, follow_redirects=bool(rng.random() < 0.5)), "request for a file outside", url=u)
            if ok:
                chk.count("requests for files outside")
                chk.expect(SECRET not in r.data and r.status_code in (404, 308, 400, 403), "request for a file outside of the dataset", mechanism="dataset_path", url=u, got=r.status_code, body=r.data[:40])
        # what is served follows the files
        for p, b in links.items():
            chk.count("linked reconstructions")
            del files[p]
        p = sorted(files)[int(rng.integers(len(files)))]
        old = get("/data/" + quote(p))
        files[p] = files[p] + b"more"
        with open(os.path.join(root, p), "wb") as f:
            f.write(files[p])
        for h in [{}, {"If-None-Match": old.headers.get("ETag", "")}]:
            r = get("/data/" + quote(p), headers=h)
            chk.count("files fetched again after a change")
            chk.expect(r.status_code == 200 and r.data == files[p], "file after a change", path=p, got=r.status_code, size=len(r.data), want=len(files[p]))
        extra = os.path.join(folders[0], "reconstruction.new%d.json" % i)
        with open(os.path.join(root, extra), "w") as f:
            json.dump([], f)
        got = [x["name"] for x in get("/items").get_json()["items"]]
        chk.expect(got == sorted(want + [extra]), "reconstructions after a change", got=got, want=sorted(want + [extra]))
        if i % 20 == 0:
            for u, p in [("/", "index.html"), ("/index.html", "index.html"), ("/node_modules.sh", "node_modules.sh")] + [("/src/" + n, "src/" + n) for n in sorted(os.listdir(os.path.join(own, "src"))) if os.path.isfile(os.path.join(own, "src", n))]:
                r = get(u)
                chk.count("own files of the viewer")
                with open(os.path.join(own, p), "rb") as f:
                    chk.expect(r.status_code == 200 and r.data == f.read(), "file of the viewer itself", url=u, got=r.status_code)
        s.datapath = None
        shutil.rmtree(home)
