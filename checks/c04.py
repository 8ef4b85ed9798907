"""C04: geographic conversions, in Python and in the native module."""
import numpy as np

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pygeo"]
REQUIRED = ["positions", "frames", "distances", "array conversions"]
RULE = ("one case = one reference position with a set of positions near it, far from it, at the poles, on the "
        "antimeridian and above and below the ellipsoid; non-trivial always")
ASSUMPTIONS = ["heights between -10 km and 20 km; the inverse conversion is a single step of Bowring's method",
               "the oracle is PROJ (EPSG:4979 to EPSG:4978), and formulas evaluated in extended precision"]

A, B = 6378137.0, 6356752.314245


def ecef_ref(lat, lon, alt):
    """Definition of the ellipsoid, in extended precision."""
    L = np.longdouble
    r = L(np.pi) + L(1.2246467991473532e-16)
    la, lo = np.asarray(lat, L) * r / 180, np.asarray(lon, L) * r / 180
    e2 = 1 - L(B) ** 2 / L(A) ** 2
    N = L(A) / np.sqrt(1 - e2 * np.sin(la) ** 2)
    h = np.asarray(alt, L)
    return np.stack([(N + h) * np.cos(la) * np.cos(lo), (N + h) * np.cos(la) * np.sin(lo),
                     (N * (1 - e2) + h) * np.sin(la)], -1).astype(float)


def axes_ref(lat, lon):
    la, lo = np.radians(lat), np.radians(lon)
    e = [-np.sin(lo), np.cos(lo), 0]
    n = [-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)]
    u = [np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]
    return np.array([e, n, u])


def latitudes(rng, n):
    lat = rng.uniform(-90, 90, n)
    s = rng.random(n) < 0.25
    lat[s] = rng.choice([-90.0, 90.0, 0.0, 89.9999999, -89.999999, 89.99999999999, 45.0], s.sum())
    return lat


def longitudes(rng, n):
    lon = rng.uniform(-180, 180, n)
    s = rng.random(n) < 0.25
    lon[s] = rng.choice([180.0, -180.0, 0.0, 90.0, -90.0, 179.9999999, -179.99999999], s.sum())
    return lon


def same_place(chk, got, want, what, **data):
    """Compare latitude, longitude and altitude as places: metres, not degrees."""
    got, want = np.atleast_2d(np.array(got, float)), np.atleast_2d(np.array(want, float))
    d = np.abs(ecef_ref(*got.T) - ecef_ref(*want.T)).max()
    chk.extreme("round trip error (m)", d)
    chk.expect(d < 1e-5, what, got=got[:6], expected=want[:6], error=d, **data)
    chk.close(got[:, 2], want[:, 2], 1e-5, what + " (altitude)", **data)
    chk.close(got[:, 0], want[:, 0], 1e-9, what + " (latitude)", **data)
    chk.expect((np.abs(got[:, 1]) <= 180.0 + 1e-12).all(), what + " (longitude range)", got=got)


def one(chk, rng, i, transformer):
    from opensfm import geo, pygeo

    ref = (float(latitudes(rng, 1)[0]), float(longitudes(rng, 1)[0]), float(rng.choice([0, rng.uniform(-5000, 9000)])))
    n = 12
    lat, lon = latitudes(rng, n), longitudes(rng, n)
    alt = rng.uniform(-1e4, 1e4, n)
    alt[:2] = [0.0, 2e4]
    spread = 10.0 ** rng.uniform(-6, 0)
    lat[6:] = np.clip(ref[0] + rng.normal(size=6) * spread, -90, 90)
    lon[6:] = ref[1] + rng.normal(size=6) * spread
    chk.case("reference", {"reference": ref, "lat": lat, "lon": lon, "alt": alt}, sig=(chk.shard, i))
    chk.count("positions", n)
    want = ecef_ref(lat, lon, alt)
    if transformer is not None:
        proj = np.array(transformer.transform(lon, lat, alt)).T
        chk.close(want, proj, 1e-5, "the oracle against PROJ")
    # geodetic to earth centred
    arr = np.array(geo.ecef_from_lla(lat, lon, alt)).T
    chk.count("array conversions", 3)
    chk.close(arr, want, 1e-8, "Python ecef_from_lla (arrays)")
    chk.close([geo.ecef_from_lla(*p) for p in zip(lat, lon, alt)], want, 1e-8, "Python ecef_from_lla")
    chk.close([pygeo.ecef_from_lla(*p) for p in zip(lat, lon, alt)], want, 1e-8, "native ecef_from_lla")
    chk.close([pygeo.ecef_from_lla(np.array(p)) for p in zip(lat, lon, alt)], want, 1e-8, "native ecef_from_lla (vector)")
    # and back
    there = np.stack([lat, lon, alt], 1)
    same_place(chk, np.array(geo.lla_from_ecef(*arr.T)).T, there, "Python lla_from_ecef (arrays)")
    same_place(chk, [geo.lla_from_ecef(*p) for p in arr], there, "Python lla_from_ecef")
    same_place(chk, [pygeo.lla_from_ecef(*p) for p in arr], there, "native lla_from_ecef")
    same_place(chk, [pygeo.lla_from_ecef(p) for p in arr], there, "native lla_from_ecef (vector)")
    # away from the poles and the antimeridian the numbers themselves come back
    plain = (np.abs(lat) < 89.9) & (np.abs(lon) < 179.999999)
    if plain.any():
        chk.close(np.array(geo.lla_from_ecef(*arr.T)).T[plain][:, :2], there[plain][:, :2], 1e-9, "longitude round trip")
    # the local frame
    chk.count("frames")
    o = ecef_ref(*ref)
    E = axes_ref(ref[0], ref[1])
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = E.T, o
    for M, what in ((geo.ecef_from_topocentric_transform(*ref), "Python"),
                    (pygeo.ecef_from_topocentric_transform(*ref), "native"),
                    (pygeo.ecef_from_topocentric_transform(np.array(ref)), "native (vector)")):
        chk.close(M, T, 1e-8, what + " ecef_from_topocentric_transform", reference=ref)
        R = np.array(M)[:3, :3]
        chk.close(R.T @ R, np.eye(3), 1e-12, what + " frame is orthonormal")
    if abs(ref[0]) < 89:
        for M, what in ((geo.ecef_from_topocentric_transform_finite_diff(*ref), "Python"),
                        (pygeo.ecef_from_topocentric_transform_finite_diff(*ref), "native"),
                        (pygeo.ecef_from_topocentric_transform_finite_diff(np.array(ref)), "native (vector)")):
            chk.close(np.array(M)[:3, :3], E.T, 1e-6, what + " frame by finite differences", reference=ref)
            chk.close(np.array(M)[:3, 3], o, 1e-8, what + " origin by finite differences", reference=ref)
    local = (want - o) @ E.T
    tol = 1e-7
    got = np.array(geo.topocentric_from_lla(lat, lon, alt, *ref)).T
    chk.close(got, local, tol, "Python topocentric_from_lla (arrays)", reference=ref)
    chk.close([geo.topocentric_from_lla(*p, *ref) for p in there], local, tol, "Python topocentric_from_lla", reference=ref)
    chk.close([pygeo.topocentric_from_lla(*p, *ref) for p in there], local, tol, "native topocentric_from_lla", reference=ref)
    chk.close([pygeo.topocentric_from_lla(p, np.array(ref)) for p in there], local, tol, "native topocentric_from_lla (vector)", reference=ref)
    conv = geo.TopocentricConverter(*ref)
    chk.close(np.array(conv.to_topocentric(lat, lon, alt)).T, local, tol, "TopocentricConverter.to_topocentric (arrays)")
    chk.close([conv.to_topocentric(*p) for p in there], local, tol, "TopocentricConverter.to_topocentric")
    chk.close(conv.to_topocentric(*ref), np.zeros(3), 1e-8, "the reference is the origin")
    same_place(chk, np.array(geo.lla_from_topocentric(*local.T, *ref)).T, there, "Python lla_from_topocentric (arrays)", reference=ref)
    same_place(chk, [geo.lla_from_topocentric(*p, *ref) for p in local], there, "Python lla_from_topocentric", reference=ref)
    same_place(chk, [pygeo.lla_from_topocentric(*p, *ref) for p in local], there, "native lla_from_topocentric", reference=ref)
    same_place(chk, [pygeo.lla_from_topocentric(p, np.array(ref)) for p in local], there, "native lla_from_topocentric (vector)", reference=ref)
    same_place(chk, np.array(conv.to_lla(*local.T)).T, there, "TopocentricConverter.to_lla (arrays)", reference=ref)
    same_place(chk, [conv.to_lla(*p) for p in local], there, "TopocentricConverter.to_lla", reference=ref)
    # axes point east, north and up
    if abs(ref[0]) < 89:
        d = 1e-4
        chk.expect(geo.topocentric_from_lla(ref[0], ref[1] + d, ref[2], *ref)[0] > 0, "x does not point east")
        chk.expect(geo.topocentric_from_lla(ref[0] + d, ref[1], ref[2], *ref)[1] > 0, "y does not point north")
        chk.expect(geo.topocentric_from_lla(ref[0], ref[1], ref[2] + 1, *ref)[2] > 0.99, "z does not point up")
    native = pygeo.TopocentricConverter(*ref)
    chk.expect((native.lat, native.lon, native.alt) == ref, "native converter loses its reference")
    other = geo.TopocentricConverter(ref[0], ref[1] + 1.0, ref[2])
    chk.expect(conv == geo.TopocentricConverter(*ref) and not (conv == other), "converter equality")
    # distances
    flat = ecef_ref(lat, lon, 0 * alt)
    j = rng.permutation(n)
    want_d = np.linalg.norm(flat - flat[j], axis=1)
    p, q = np.stack([lat, lon], 1), np.stack([lat[j], lon[j]], 1)
    chk.count("distances", n)
    chk.close(geo.gps_distance(p.T, q.T), want_d, 1e-7, "Python gps_distance (arrays)")
    chk.close([geo.gps_distance(a, b) for a, b in zip(p, q)], want_d, 1e-7, "Python gps_distance")
    chk.close([pygeo.gps_distance(a, b) for a, b in zip(p, q)], want_d, 1e-7, "native gps_distance")
    chk.close([geo.gps_distance(b, a) - geo.gps_distance(a, b) for a, b in zip(p, q)], np.zeros(n), 1e-9, "gps_distance is not symmetric")
    chk.close([pygeo.gps_distance(a, a) for a in p], np.zeros(n), 0, "distance to itself")


def run(chk):
    try:
        import pyproj

        tr = pyproj.Transformer.from_crs("EPSG:4979", "EPSG:4978", always_xy=True)
        tr.transform(0.0, 0.0, 0.0)
    except Exception:
        tr = None
    for i in range(chk.n(1600, 60000)):
        one(chk, chk.rng_for("geo", i), i, tr)
