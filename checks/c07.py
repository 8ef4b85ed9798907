"""C07: tracks files can be written and read back without loss."""
import os
import subprocess
import sys

import numpy as np

import dsgen
import vf

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = None
REQUIRED = ["managers written", "observations read back", "older versions read", "malformed files rejected",
            "failed writes reported", "dataset round trips"]
RULE = ("one case = one manager written to a string, a file and a dataset and read back, or one hand-written file of a given "
        "version, intact or damaged; non-trivial when the manager or file has at least one observation")
ASSUMPTIONS = ["identifiers contain no tab and no line break, which the format cannot hold",
               "positions and scales are kept to the 6 significant digits the format writes; depth priors are not part of it",
               "a shot or track left without observations is not part of what is written"]
HEADER = "OPENSFM_TRACKS_VERSION"
NAMES = ["im%d.jpg" % i for i in range(8)] + ["a b.jpg", "ünï çødé.jpg", "01", "1", "日本.png", "x;y,z.tif", "#", "'q\"", " lead", "trail ", "-",
                                              "OPENSFM", "nan", "1e5"]


def obs_tuple(o):
    return (tuple(map(float, o.point)), float(o.scale), tuple(map(int, o.color)), int(o.id), int(o.segmentation), int(o.instance))


def rand_value(rng):
    k = rng.integers(8)
    if k == 0:
        return 0.0
    if k == 1:
        return float(rng.normal() * 10.0 ** rng.uniform(-8, -3))
    if k == 2:
        return float(rng.normal() * 10.0 ** rng.uniform(2, 9))
    if k == 3:
        return float(rng.integers(-5, 6))
    return float(rng.uniform(-0.5, 0.5))


def rand_int(rng):
    return int(rng.choice([0, 1, -1, 255, 2**31 - 1, -2**31, int(rng.integers(0, 256)), int(rng.integers(0, 100000))]))


def rand_manager(rng):
    from opensfm import pymap

    tm = pymap.TracksManager()
    obs = {}
    shots = [str(s) for s in rng.choice(NAMES, int(rng.integers(1, 7)), replace=False)]
    tracks = [str(s) for s in rng.choice(["%d" % i for i in range(20)] + NAMES, int(rng.integers(1, 8)), replace=False)]
    for s in shots:
        for t in tracks:
            if rng.random() < 0.6:
                o = pymap.Observation(rand_value(rng), rand_value(rng), abs(rand_value(rng)),
                                      *[int(c) for c in rng.integers(0, 256, 3)],
                                      int(rng.choice([0, 7, int(rng.integers(0, 100000)), 2**31 - 1])), rand_int(rng), rand_int(rng))
                tm.add_observation(s, t, o)
                obs[s, t] = obs_tuple(o)
    if obs and rng.random() < 0.3:
        s, t = list(obs)[int(rng.integers(len(obs)))]
        tm.remove_observation(s, t)
        del obs[s, t]
    return tm, obs


def same(chk, got, want, what, tol=1e-5):
    if not chk.expect(set(got) == set(want), what + ": set of observations", missing=sorted(set(want) - set(got))[:5],
                      extra=sorted(set(got) - set(want))[:5]):
        return
    for k in want:
        g, w = got[k], want[k]
        chk.count("observations read back")
        chk.expect(g[2:] == w[2:], what + ": color, feature id, segmentation or instance", which=k, got=g, expected=w)
        a, b = np.array(g[0] + (g[1],)), np.array(w[0] + (w[1],))
        chk.expect(bool((np.abs(a - b) <= tol * np.abs(b)).all()), what + ": coordinates or scale", which=k, got=g, expected=w)


def contents(chk, tm, what):
    out = {}
    for s in tm.get_shot_ids():
        for t, o in tm.get_shot_observations(s).items():
            out[s, t] = obs_tuple(o)
    back = {}
    for t in tm.get_track_ids():
        for s, o in tm.get_track_observations(t).items():
            back[s, t] = obs_tuple(o)
    chk.expect(out == back, what + ": the two sides of the manager differ")
    return out


def parse(chk, text):
    """The current version of the format, read independently."""
    lines = text.split("\n")
    chk.expect(lines[0] == HEADER + "_v2" and lines[-1] == "", "header or end of the written file", got=lines[0])
    out = {}
    for line in lines[1:-1]:
        f = line.split("\t")
        if not chk.expect(len(f) == 11, "number of fields written", line=line):
            continue
        chk.expect((f[0], f[1]) not in out, "an observation was written twice", line=line)
        out[f[0], f[1]] = ((float(f[3]), float(f[4])), float(f[5]), (int(f[6]), int(f[7]), int(f[8])), int(f[2]), int(f[9]), int(f[10]))
    return out


def round_trip(chk, rng, i, ds):
    from opensfm import pymap

    TM = pymap.TracksManager
    tm, obs = rand_manager(rng)
    chk.case("round trip", {"observations": {"%s|%s" % k: v for k, v in list(obs.items())[:20]}}, sig=(chk.shard, i), nontrivial=bool(obs))
    chk.count("managers written")
    before = contents(chk, tm, "manager")
    s = tm.as_string()
    same(chk, parse(chk, s), obs, "string")
    same(chk, contents(chk, TM.instanciate_from_string(s), "from string"), obs, "from string")
    path = os.path.join(chk.tmp, str(rng.choice(["tracks.csv", "tracks ü.csv", "t"])))
    with open(path, "w") as f:
        f.write("old contents which must go\n" * 1000)
    tm.write_to_file(path)
    with open(path, newline="") as f:
        same(chk, parse(chk, f.read()), obs, "file")
    again = TM.instanciate_from_file(path)
    got = contents(chk, again, "from file")
    same(chk, got, obs, "from file")
    # what was read can be written and read again without further loss
    third = contents(chk, TM.instanciate_from_string(again.as_string()), "second pass")
    same(chk, third, got, "second pass", 1e-15)
    chk.expect(contents(chk, tm, "manager") == before, "writing changed the manager")
    if rng.random() < 0.3:
        name = [None, "tracks_other.csv"][rng.integers(2)]
        ds.save_tracks_manager(tm, name)
        chk.expect(ds.tracks_exists(name), "tracks_exists after saving")
        same(chk, contents(chk, ds.load_tracks_manager(name), "from dataset"), obs, "from dataset")
        chk.count("dataset round trips")


def number(rng, x):
    return str(rng.choice([repr(float(x)), "%.3f" % x, "%e" % x, "%g" % x, "%.17g" % x]))


def old_version(chk, rng, i):
    from opensfm import pymap

    v = int(rng.integers(0, 3))
    eol = "\r\n" if rng.random() < 0.2 else "\n"
    rows, want = [], {}
    for s in rng.choice(NAMES, int(rng.integers(1, 5)), replace=False):
        for t in rng.choice(NAMES, int(rng.integers(1, 4)), replace=False):
            if s == "OPENSFM":
                continue
            x, y, sc = rand_value(rng), rand_value(rng), abs(rand_value(rng))
            x, y, sc = number(rng, x), number(rng, y), number(rng, sc)
            fid, r, g, b, seg, inst = (int(z) for z in rng.integers(0, 256, 6))
            row = [s, t, fid, x, y] + ([sc] if v >= 1 else []) + [r, g, b] + ([seg, inst] if v >= 2 else [])
            rows.append(row)
            want[str(s), str(t)] = ((float(x), float(y)), float(sc) if v >= 1 else 0.0, (r, g, b), fid,
                                    seg if v >= 2 else None, inst if v >= 2 else None)
    head = [] if v == 0 else [HEADER + "_v%d" % v]
    text = "".join(line + eol for line in head + ["\t".join(map(str, r)) for r in rows])
    if rng.random() < 0.3 and text.endswith("\n"):
        text = text[: -len(eol)]
    chk.case("hand-written version %d" % v, {"file": text[:600]}, sig=(chk.shard, "v", i), nontrivial=bool(rows))
    path = os.path.join(chk.tmp, "old.csv")
    with open(path, "w", newline="") as f:
        f.write(text)
    for name, read in (("file", lambda: pymap.TracksManager.instanciate_from_file(path)),
                       ("string", lambda: pymap.TracksManager.instanciate_from_string(text))):
        ok, tm = chk.guard(read, "reading version %d from a %s" % (v, name))
        if not ok:
            continue
        chk.count("older versions read")
        got = contents(chk, tm, "version %d" % v)
        none = pymap.Observation.NO_SEMANTIC_VALUE
        same(chk, got, {k: w[:4] + (none if w[4] is None else w[4], none if w[5] is None else w[5]) for k, w in want.items()},
             "version %d from a %s" % (v, name), 1e-15)
    if rows:
        damaged(chk, rng, rows, v, i)


BAD_NUMBER = ["", "x", "1x", "--1", "1.2.3", "0x", "1,5", "1 2", "e5", "None", "\u0661", "12abc"]


def damaged(chk, rng, rows, v, i):
    from opensfm import pymap

    rows = [list(map(str, r)) for r in rows]
    j = int(rng.integers(len(rows)))
    kind = str(rng.choice(["missing field", "extra field", "integer", "fraction as integer", "coordinate", "truncated", "version", "huge", "blank line"]))
    head = [] if v == 0 else [HEADER + "_v%d" % v]
    ints = [2] + list(range(5 if v == 0 else 6, len(rows[0])))
    floats = [3, 4] if v == 0 else [3, 4, 5]
    if kind == "missing field":
        rows[j].pop(int(rng.integers(2, len(rows[j]))))
    elif kind == "extra field":
        rows[j].insert(int(rng.integers(2, len(rows[j]) + 1)), "5")
    elif kind == "integer":
        bad = str(rng.choice(BAD_NUMBER))
        k = int(rng.choice(ints))
        if bad == "" and k == len(rows[j]) - 1:
            bad = "x"
        rows[j][k] = bad
    elif kind == "fraction as integer":
        rows[j][int(rng.choice(ints))] = "3.7"
    elif kind == "coordinate":
        rows[j][int(rng.choice(floats))] = str(rng.choice(BAD_NUMBER))
    elif kind == "truncated":
        rows = rows[: j + 1]
        rows[j] = rows[j][: int(rng.integers(1, len(rows[j])))]
    elif kind == "version":
        head = [HEADER + "_v%d" % rng.choice([3, 7, 22, 99])]
    elif kind == "blank line":
        rows.insert(j, [""])
    else:
        rows[j][int(rng.choice(ints))] = "99999999999999999999"
    text = "".join(line + "\n" for line in head + ["\t".join(r) for r in rows])
    chk.case("damaged", {"kind": kind, "file": text[:600]}, sig=(chk.shard, "d", i))
    path = os.path.join(chk.tmp, "damaged.csv")
    with open(path, "w", newline="") as f:
        f.write(text)
    for name, read in (("file", lambda: pymap.TracksManager.instanciate_from_file(path)),
                       ("string", lambda: pymap.TracksManager.instanciate_from_string(text))):
        try:
            tm = read()
        except (RuntimeError, ValueError, IndexError, OverflowError):
            chk.count("malformed files rejected")
            chk.expect(True, "damaged file")
            continue
        chk.expect(False, "a %s with %s was accepted" % (name, kind), got=str(contents(chk, tm, "damaged"))[:600])


WRITER = """
import resource, signal, sys
sys.path[:0] = [%r, %r]
import osfm_loader, vbuild
osfm_loader.install(%r)
from opensfm import pymap
tm = pymap.TracksManager()
for s in range(200):
    for t in range(50):
        tm.add_observation("shot%%d" %% s, "%%d" %% t, pymap.Observation(0.1, 0.2, 1.0, 1, 2, 3, t))
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
size = int(sys.argv[1])
resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
try:
    tm.write_to_file(sys.argv[2])
    print("WROTE")
except RuntimeError as e:
    print("RAISED")
"""


def faults(chk):
    from opensfm import pymap

    import vbuild
    TM = pymap.TracksManager
    missing = os.path.join(chk.tmp, "nowhere", "tracks.csv")
    tm = TM()
    tm.add_observation("a", "1", pymap.Observation(0.1, 0.2, 1.0, 1, 2, 3, 4))
    for what, fn in (("reading a missing file", lambda: TM.instanciate_from_file(os.path.join(chk.tmp, "absent.csv"))),
                     ("reading a directory", lambda: TM.instanciate_from_file(chk.tmp)),
                     ("writing into a missing directory", lambda: tm.write_to_file(missing)),
                     ("writing over a directory", lambda: tm.write_to_file(chk.tmp))):
        chk.case("fault", what)
        try:
            fn()
            chk.expect(False, what + " did not fail")
        except RuntimeError:
            chk.expect(True, what)
            chk.count("failed writes reported" if "writing" in what else "malformed files rejected")
    chk.case("fault", "empty")
    path = os.path.join(chk.tmp, "empty.csv")
    empty = TM()
    empty.write_to_file(path)
    for t in (TM.instanciate_from_file(path), TM.instanciate_from_string(empty.as_string())):
        chk.expect(t.num_shots() == 0 and t.num_tracks() == 0, "an empty manager is read back empty")
    code = WRITER % (os.path.join(vf.VERIF, "lib"), vf.VERIF, vbuild.moddir(chk.variant))
    sizes = [0, 1, 4096, 100000, 300000, 10**9] if chk.thorough else [0, 4096, 10**9]
    for size in sizes:
        chk.case("fault", "file size limit %d" % size)
        path = os.path.join(chk.tmp, "limited.csv")
        r = subprocess.run([vf.PY, "-c", code, str(size), path], capture_output=True, text=True, timeout=120)
        if size == 10**9:
            chk.expect(r.stdout.strip() == "WROTE", "writing without a limit", out=r.stdout, err=r.stderr[-500:])
            chk.expect(len(contents(chk, TM.instanciate_from_file(path), "large")) == 10000, "large file read back")
        else:
            if "RAISED" in r.stdout:
                chk.count("failed writes reported")
            elif "WROTE" not in r.stdout:
                raise vf.Inconclusive("writer process: " + r.stderr[-1000:])
            chk.expect("RAISED" in r.stdout, "a write cut short by a full disk was not reported", limit=size)


def run(chk):
    if chk.shard == 0:
        faults(chk)
    root = os.path.join(chk.tmp, "data")
    ds = dsgen.make_dataset(root, ["a.jpg"])
    for i in range(chk.n(800, 20000)):
        round_trip(chk, chk.rng_for(i), i, ds)
    for i in range(chk.n(1200, 30000)):
        old_version(chk, chk.rng_for("old", i), i)
