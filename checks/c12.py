"""C12: loading data files never executes code carried by them."""
import builtins
import gzip
import io as pyio
import json
import os
import pickle
import struct
import sys
import zipfile

import numpy as np

import dsgen
import gen

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pymap", "pygeometry"]
REQUIRED = ["hostile files loaded", "hostile files rejected", "genuine files loaded", "audit events watched", "payloads proven live"]
RULE = ("one case = one data file that carries code (a pickle in some disguise, a YAML tag, an object array) or a genuine one, given to the loader "
        "of its kind while an audit hook watches what the interpreter does; non-trivial always")
ASSUMPTIONS = ["payloads only call a function of the harness or write a marker in the scratch directory",
               "an old (version 2) feature file with pickled labels may be loaded without them, as documented",
               "memory corruption through crafted numpy buffers is not attempted"]

FIRED = []


def fire(*a, **k):
    FIRED.append(a)
    return a[0] if a else None


builtins.__dict__["_vf_fire"] = fire  # reachable as builtins._vf_fire

WATCH = {"os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "exec", "compile", "os.remove", "os.rename",
         "os.mkdir", "os.rmdir", "shutil.rmtree", "socket.connect", "socket.bind", "ctypes.dlopen", "pickle.find_class", "os.symlink", "os.link",
         "os.chmod", "os.chown", "os.truncate", "import"}


class Audit:
    """Everything notable the interpreter did while a file was being loaded."""

    def __init__(self):
        self.on = False
        self.events = []
        self.seen = 0
        self.allowed_reads = ()
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        self.seen += 1
        if event == "open":
            path, mode = args[0], args[1]
            if isinstance(mode, str) and any(c in mode for c in "wax+"):
                self.events.append(("write", str(path)))
            elif isinstance(path, str) and not path.startswith(self.allowed_reads):
                self.events.append(("read", path))
        elif event in WATCH:
            if event in ("compile", "import"):
                return  # lazily imported modules of the library itself
            if event == "exec":
                co = args[0]
                fn = getattr(co, "co_filename", "")
                if os.path.isabs(fn) or fn.startswith("<frozen") or fn == "<__array_function__ internals>":
                    return  # a module being imported
            self.events.append((event, tuple(str(a)[:80] for a in args)))


AUDIT = None


# --------------------------------------------------------------- payloads
class Call:
    def __init__(self, f, *a):
        self.f, self.a = f, a

    def __reduce__(self):
        return self.f, self.a


def glob(module, name):
    """A pickle that names a global and calls it on 'x'."""
    return lambda arg: b"c" + module.encode() + b"\n" + name.encode() + b"\n(X" + struct.pack("<I", len(arg)) + arg + b"tR."


def stack_global(module, name):
    def f(arg):
        s = lambda t: b"\x8c" + bytes([len(t)]) + t  # noqa: E731
        return b"\x80\x04" + s(module.encode()) + s(name.encode()) + b"\x93(X" + struct.pack("<I", len(arg)) + arg + b"tR."
    return f


def inst_op(module, name):
    return lambda arg: b"(X" + struct.pack("<I", len(arg)) + arg + b"i" + module.encode() + b"\n" + name.encode() + b"\n."


def obj_op(module, name):
    return lambda arg: b"(c" + module.encode() + b"\n" + name.encode() + b"\nX" + struct.pack("<I", len(arg)) + arg + b"o."


def payloads(rng, marker):
    """name -> bytes of a pickle that runs code when loaded by an unrestricted unpickler."""
    code = ("open(%r, 'w').write('x')" % marker).encode()
    sh = ("touch '%s'" % marker).encode()
    out = {}
    for enc, name in ((glob, "text"), (stack_global, "protocol 4"), (inst_op, "INST"), (obj_op, "OBJ")):
        out["builtins.exec " + name] = enc("builtins", "exec")(code)
        out["builtins.eval " + name] = enc("builtins", "eval")(code)
        out["os.system " + name] = enc("os", "system")(sh)
        out["posix.system " + name] = enc("posix", "system")(sh)
        out["harness function " + name] = enc("builtins", "_vf_fire")(b"x")
    out["python 2 name"] = glob("__builtin__", "eval")(code)
    out["numpy runstring"] = (b"cnumpy.testing._private.utils\nrunstring\n(X" + struct.pack("<I", len(code)) + code + b"}tR.")
    out["subprocess"] = pickle.dumps(Call(__import__("subprocess").getoutput, sh.decode()))
    out["dotted name"] = stack_global("numpy", "ndarray.__class__.__subclasses__")(b"x")
    out["dotted module attribute"] = stack_global("numpy._core.multiarray", "_reconstruct.__globals__")(b"x")
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        a = np.empty(1, dtype=object)
        a[0] = Call(builtins._vf_fire, p)
        out["inside an object array, protocol %d" % p] = pickle.dumps(a, p)
        out["inside the values, protocol %d" % p] = pickle.dumps({"b.jpg": Call(builtins._vf_fire, p)}, p)
        out["as a key, protocol %d" % p] = pickle.dumps({"b.jpg": np.zeros((1, 2)), "c": [Call(builtins._vf_fire, p)]}, p)
    out["allowed class then code"] = pickle.dumps([np.zeros((2, 2)), np.dtype("f4"), np.float64(1), Call(builtins._vf_fire, 1)])
    out["after a valid object"] = pickle.dumps([{"b.jpg": np.array([[1, 2]])}, Call(exec, code.decode())], 2)
    out["class of the library"] = pickle.dumps(Call(getattr, Call(builtins._vf_fire, 1), "x"), 2)
    return out


def live(chk, data, marker):
    """Does the payload run under an unrestricted unpickler? (proof that it is one)"""
    FIRED.clear()
    try:
        pickle.loads(data)
    except Exception:
        pass
    ok = bool(FIRED) or os.path.exists(marker)
    FIRED.clear()
    if os.path.exists(marker):
        os.remove(marker)
    return ok


def harmless(chk, fn, what, marker, must_fail=True, **info):
    """Load something hostile."""
    FIRED.clear()
    AUDIT.events.clear()
    AUDIT.seen = 0
    AUDIT.on = True
    err = None
    try:
        try:
            fn()
        finally:
            AUDIT.on = False
    except Exception as e:
        err = e
    chk.count("audit events watched", AUDIT.seen)
    chk.count("hostile files loaded")
    chk.expect(not FIRED, "%s: code carried by the file ran" % what, **info)
    chk.expect(not os.path.exists(marker), "%s: code carried by the file wrote a file" % what, **info)
    bad = [e for e in AUDIT.events if e[0] not in ("pickle.find_class", "read")]
    chk.expect(not bad, "%s: loading did more than reading" % what, events=bad[:5], **info)
    reads = [e for e in AUDIT.events if e[0] == "read"]
    chk.expect(not reads, "%s: loading read other files" % what, events=reads[:5], **info)
    if must_fail:
        chk.expect(err is not None, "%s: accepted" % what, **info)
    if err is not None:
        chk.count("hostile files rejected")
    if os.path.exists(marker):
        os.remove(marker)
    return err


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def npy_object(payload):
    """An .npy of dtype object whose pickle is the payload."""
    head = b"{'descr': '|O', 'fortran_order': False, 'shape': (1,), }"
    head += b" " * (63 - (len(head) + 10) % 64) + b"\n"
    return b"\x93NUMPY\x01\x00" + struct.pack("<H", len(head)) + head + payload


def npz(members):
    b = pyio.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for k, v in members.items():
            if isinstance(v, np.ndarray):
                c = pyio.BytesIO()
                np.lib.format.write_array(c, v, allow_pickle=False)
                v = c.getvalue()
            z.writestr(k + ".npy", v)
    return b.getvalue()


def matches(chk, data, root, marker, all_p):
    path = os.path.join(root, "matches", "a.jpg_matches.pkl.gz")
    for name, p in all_p.items():
        chk.case("matches", {"payload": name})
        put(path, gzip.compress(p))
        harmless(chk, lambda: data.load_matches("a.jpg"), "matches", marker, payload=name)
        harmless(chk, lambda: data.find_matches("a.jpg", "b.jpg"), "matches of a pair", marker, payload=name)
        put(path, p)
        harmless(chk, lambda: data.load_matches("a.jpg"), "uncompressed matches", marker, payload=name)
    os.remove(path)


def archives(chk, data, root, marker, all_p):
    """numpy archives: any member may be the hostile one."""
    from opensfm.large import metadataset

    u = data.undistorted_dataset()
    meta = metadataset.MetaDataSet(root)
    f = os.path.join(root, "features")
    d = os.path.join(root, "undistorted", "depthmaps")
    ok3 = np.zeros((2, 4), np.float32)
    feats = {"points": ok3, "descriptors": ok3, "colors": ok3, "segmentations": np.zeros(2, np.uint8), "instances": np.zeros(2, np.int16),
             "segmentation_labels": np.array(["x"]), "OPENSFM_FEATURES_VERSION": np.array(3)}
    depth = {"depth": ok3, "plane": ok3, "score": ok3, "nghbr": ok3, "nghbrs": np.array(["a"])}
    pruned = {"points": ok3, "normals": ok3, "colors": ok3, "labels": ok3}
    kinds = [("words", os.path.join(f, "a.jpg.words.npz"), {"words": ok3}, lambda: data.load_words("a.jpg"), ()),
             ("raw depth map", os.path.join(d, "a.jpg.raw.npz"), depth, lambda: u.load_raw_depthmap("a.jpg"), ()),
             ("clean depth map", os.path.join(d, "a.jpg.clean.npz"), depth, lambda: u.load_clean_depthmap("a.jpg"), ("nghbr", "nghbrs")),
             ("pruned depth map", os.path.join(d, "a.jpg.pruned.npz"), pruned, lambda: u.load_pruned_depthmap("a.jpg"), ()),
             ("clusters", meta._clusters_path(), {"images": np.array(["a"]), "labels": np.zeros(1), "positions": ok3, "centers": ok3}, meta.load_clusters, ()),
             ("clusters with neighbors", meta._clusters_with_neighbors_path(), None, meta.load_clusters_with_neighbors, ())]
    for v in (0, 1, 2, 3):
        for legacy in (False, True):
            m = dict(feats, OPENSFM_FEATURES_VERSION=np.array(v))
            if v == 0:
                m.pop("OPENSFM_FEATURES_VERSION")
            tolerated = ("segmentations", "instances", "segmentation_labels") if v < 3 else ()
            kinds.append(("features version %d" % v, os.path.join(f, "a.jpg" + (".npz" if legacy else ".features.npz")), m,
                          lambda: data.load_features("a.jpg"), tolerated))
    for kind, path, members, load, tolerated in kinds:
        if members is None:
            meta.save_clusters_with_neighbors([["a.jpg", "b.jpg"], ["b.jpg"]])
            with np.load(path, allow_pickle=True) as z:
                members = {k: z[k] for k in z.files}
            members = {k: (v if v.dtype != object else npy_object(pickle.dumps(v))) for k, v in members.items()}
        for name, p in all_p.items():
            for k in members:
                chk.case("archive: " + kind, {"payload": name, "member": k})
                put(path, npz(dict(members, **{k: npy_object(p)})))
                harmless(chk, load, kind, marker, must_fail=k not in tolerated, payload=name, member=k)
            chk.case("archive: " + kind, {"payload": name, "member": "the file itself"})
            put(path, p)
            harmless(chk, load, kind, marker, payload=name, file="pickle in place of an archive")
            put(path, npy_object(p))
            harmless(chk, load, kind, marker, payload=name, file="object array in place of an archive")
        os.remove(path)


def yamls(chk, root, marker):
    from opensfm import config, dataset

    sh = "touch '%s'" % marker
    code = "open(%r, 'w').write('x')" % marker
    docs = {
        "apply os.system": "!!python/object/apply:os.system [\"%s\"]" % sh,
        "apply exec": "!!python/object/apply:builtins.exec [\"%s\"]" % code,
        "apply fire": "processes: !!python/object/apply:builtins._vf_fire [1]",
        "new": "processes: !!python/object/new:builtins._vf_fire [1]",
        "name": "processes: !!python/name:builtins._vf_fire",
        "module": "processes: !!python/module:os",
        "object": "processes: !!python/object:opensfm.dataset.DataSet {}",
        "list state": "processes: !!python/object/new:tuple [!!python/object/new:map [!!python/name:eval , [\"%s\"]]]" % code,
        "key": "? !!python/object/apply:builtins._vf_fire [1]\n: 1",
    }
    path = os.path.join(root, "config.yaml")
    keep = open(path, "rb").read()
    for name, d in docs.items():
        chk.case("configuration", {"payload": name, "text": d})
        put(path, d.encode())
        harmless(chk, lambda: dataset.DataSet(root), "configuration", marker, payload=name)
        harmless(chk, lambda: config.load_config_from_fileobject(d), "configuration text", marker, payload=name)
        harmless(chk, lambda: config.load_config(path), "configuration file", marker, payload=name)
    put(path, keep)


def texts(chk, data, root, marker):
    """Documents whose strings are code: they are data, whatever they say."""
    code = "__import__('os').system(\"touch '%s'\")" % marker
    evil = [code, "exec(open(%r,'w').write('x'))" % marker, "$(touch '%s')" % marker, "`touch '%s'`" % marker, "; touch '%s'" % marker,
            "{0.__class__}", "%(x)s"]
    u = data.undistorted_dataset()

    def J(name, f):
        return os.path.join(root, name), f

    for e in evil:
        rec = [{"cameras": {e: {"projection_type": "perspective", "focal": 1.0, "width": 1, "height": 1}},
                "shots": {e: {"camera": e, "rotation": [0, 0, 0], "translation": [0, 0, 0], "skey": e}},
                "points": {e: {"color": [1, 2, 3], "coordinates": [0, 0, 1]}}}]
        bad_rec = [dict(rec[0], shots={e: {"camera": e, "rotation": e, "translation": [0, 0, 0], "orientation": e}})]
        bad_cam = {e: {"projection_type": e, "focal": e}}
        cases = [
            ("reconstruction.json", json.dumps(rec), data.load_reconstruction, False),
            ("reconstruction.json", json.dumps(bad_rec), data.load_reconstruction, True),
            ("reconstruction.json", e, data.load_reconstruction, True),
            ("undistorted/reconstruction.json", json.dumps(rec), u.load_undistorted_reconstruction, False),
            ("camera_models.json", json.dumps(bad_cam), data.load_camera_models, True),
            ("camera_models_overrides.json", json.dumps(bad_cam), data.load_camera_models_overrides, True),
            ("exif/a.jpg.exif", json.dumps({"width": e}), lambda: data.load_exif("a.jpg"), False),
            ("exif/a.jpg.exif", e, lambda: data.load_exif("a.jpg"), True),
            ("exif_overrides.json", e, data.load_exif_overrides, True),
            ("reference_lla.json", json.dumps({"latitude": e, "longitude": 0, "altitude": 0}), data.load_reference, None),
            ("rig_assignments.json", json.dumps({e: [[e, e]]}), data.load_rig_assignments, False),
            ("rig_assignments.json", e, data.load_rig_assignments, True),
            ("tracks.csv", "OPENSFM_TRACKS_VERSION_v2\n" + "\t".join([e, e, "1", e, "0", "0", "1", "2", "3", "4", "5"]) + "\n", data.load_tracks_manager, True),
            ("tracks.csv", e, data.load_tracks_manager, None),
            ("undistorted/undistorted_shot_ids.json", json.dumps({e: [e]}), u.load_undistorted_shot_ids, False),
            ("undistorted/depthmaps/merged.ply", "ply\nend_header\n" + " ".join([e] * 10), u.load_point_cloud, True),
            ("reports/r.json", e, lambda: data.load_report("r.json"), False),
        ]
        for name, text, load, must_fail in cases:
            chk.case("text", {"file": name, "code": e[:40]})
            put(os.path.join(root, name), text.encode())
            err = harmless(chk, load, name, marker, must_fail=must_fail is True, code=e)
            if must_fail is False:
                chk.expect(err is None, "%s with strange text refused: %s" % (name, err), code=e)
            os.remove(os.path.join(root, name))
        for name, text in (("gcp_list.txt", "%s\n1 2 3 4 5 a.jpg" % e), ("gcp_list.txt", "WGS84\n%s %s %s %s %s a.jpg %s" % ((e,) * 6)),
                           ("ground_control_points.json", json.dumps({"points": [{"id": e, "observations": [{"shot_id": e, "projection": e}]}]}))):
            chk.case("text", {"file": name, "code": e[:40]})
            put(os.path.join(root, "exif", "a.jpg.exif"), json.dumps({"width": 10, "height": 10}).encode())
            put(os.path.join(root, "exif", "b.jpg.exif"), json.dumps({"width": 10, "height": 10}).encode())
            put(os.path.join(root, name), text.encode())
            harmless(chk, data.load_ground_control_points, name, marker, must_fail=False, code=e)
            os.remove(os.path.join(root, name))
        from opensfm import dataset
        keep = open(os.path.join(root, "config.yaml"), "rb").read()
        for name in ("image_list.txt", "mask_list.txt"):
            chk.case("text", {"file": name, "code": e[:40]})
            put(os.path.join(root, name), (e + " " + e + "\n").encode())
            harmless(chk, lambda: dataset.DataSet(root), name, marker, must_fail=False, code=e)
            os.remove(os.path.join(root, name))
        put(os.path.join(root, "config.yaml"), keep)


def genuine(chk, rng, data, root):
    """The library's own files still load."""
    from opensfm import features
    from opensfm.large import metadataset

    meta = metadataset.MetaDataSet(root)
    u = data.undistorted_dataset()
    for i in range(chk.n(60, 300)):
        n = int(rng.integers(1, 6))
        chk.case("genuine", {"rows": n}, sig=(chk.shard, i))
        m = {k: rng.integers(0, 99, (n, 2)).astype(t) for k, t in (("b.jpg", np.int32), ("c", np.int64), ("ü", np.uint32), ("f", np.float32))}
        m["empty"] = np.array([])
        m["list"] = [(1, 2), (np.int64(3), 4)]
        data.save_matches("a.jpg", m)
        ok, g = chk.guard(lambda: data.load_matches("a.jpg"), "loading genuine matches")
        if ok:
            chk.expect(set(g) == set(m) and all(np.array_equal(np.asarray(g[k]), np.asarray(m[k])) for k in m), "genuine matches")
        for p in (3, 4):  # what the Python versions the library runs on write
            put(os.path.join(root, "matches", "b.jpg_matches.pkl.gz"), gzip.compress(pickle.dumps(m, p)))
            ok, g = chk.guard(lambda: data.load_matches("b.jpg"), "loading matches pickled with protocol %d" % p)
            chk.expect(not ok or np.array_equal(g["b.jpg"], m["b.jpg"]), "matches pickled with protocol %d" % p)
            # files of older numpy versions name the old module
            old = pickle.dumps(m, p)
            if p < 4:
                old = old.replace(b"cnumpy._core.multiarray\n", b"cnumpy.core.multiarray\n")
                put(os.path.join(root, "matches", "b.jpg_matches.pkl.gz"), gzip.compress(old))
                ok, g = chk.guard(lambda: data.load_matches("b.jpg"), "loading matches of an older numpy")
                chk.expect(not ok or np.array_equal(g["b.jpg"], m["b.jpg"]), "matches of an older numpy")
        w = rng.integers(0, 50, (n, 3))
        data.save_features("a.jpg", features.FeaturesData(rng.random((n, 4)), rng.random((n, 8)), rng.random((n, 3)),
                                                           features.SemanticData(np.zeros(n), np.zeros(n), [{"a": 1}])))
        ok, g = chk.guard(lambda: data.load_features("a.jpg"), "loading genuine features")
        data.save_words("a.jpg", w)
        ok, g = chk.guard(lambda: data.load_words("a.jpg"), "loading genuine words")
        chk.expect(not ok or np.array_equal(g, w), "genuine words")
        groups = [["im %d ü" % j for j in rng.integers(0, 9, int(rng.integers(0, 4)))] for _ in range(n)]
        ok, _ = chk.guard(lambda: meta.save_clusters_with_neighbors(groups), "saving clusters", groups=groups)
        ok, g = chk.guard(lambda: meta.load_clusters_with_neighbors(), "loading genuine clusters", groups=groups)
        chk.expect(not ok or [list(x) for x in g] == groups, "genuine clusters", got=g if ok else None, expected=groups)
        D = rng.random((n, 2)).astype(np.float32)
        u.save_raw_depthmap("a.jpg", D, D, D, D, ["b.jpg"])
        ok, g = chk.guard(lambda: u.load_raw_depthmap("a.jpg"), "loading a genuine depth map")
        chk.count("genuine files loaded", 12)


def run(chk):
    global AUDIT
    root = os.path.join(chk.tmp, "dataset")
    marker = os.path.join(chk.tmp, "marker")
    data = dsgen.make_dataset(root, ["a.jpg", "b.jpg"])
    from opensfm.large import metadataset

    metadataset.MetaDataSet(root)
    os.makedirs(os.path.join(root, "submodels"), exist_ok=True)
    rng = chk.rng_for("payloads")
    genuine(chk, rng, data, root)  # also makes lazy imports happen before the audit
    AUDIT = Audit()
    AUDIT.allowed_reads = (root, sys.prefix, sys.base_prefix, "/repo", "/usr", "/opt", "/verif", "/etc/localtime", "/dev/urandom")
    all_p = payloads(rng, marker)
    dead = [n for n, p in all_p.items() if not live(chk, p, marker)]
    chk.count("payloads proven live", len(all_p) - len(dead))
    part = dict(list(all_p.items())[chk.shard:: chk.shards])
    matches(chk, data, root, marker, part)
    if not chk.thorough:
        keys = [k for j, k in enumerate(part) if j % 2 == 0] + [k for k in part if "inside" in k]
        part = {k: part[k] for k in dict.fromkeys(keys)}
    archives(chk, data, root, marker, part)
    if chk.shard == 0:
        yamls(chk, root, marker)
    if chk.shard == 1:
        texts(chk, data, root, marker)
