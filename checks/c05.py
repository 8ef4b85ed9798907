"""C05: rotation and orientation conventions agree with each other."""
import itertools

import numpy as np

import gen

SHARDS = {"quick": 4, "thorough": 8}
REQUIRED = ["case:angles", "case:euler", "case:quaternion", "case:homogeneous", "case:upright", "case:metadata",
            "case:compass"]
RULE = ("one case = one random (or singular: right angles, half turns, gimbal lock, nearly so) rotation taken through "
        "one family of conventions and back; non-trivial when the rotation is not the identity")
ASSUMPTIONS = ["angles are compared through the rotation they stand for",
               "away from the gimbal lock of a convention the angles themselves must come back"]


def ax(i, a):
    v = np.zeros(3)
    v[i] = a
    return gen.rodrigues(v)


def angle(rng, lo=-np.pi, hi=np.pi):
    k = rng.integers(5)
    if k == 0:
        c = [x for x in (0.0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, np.pi / 4) if lo <= x <= hi]
        return float(rng.choice(c))
    if k == 1:
        return float(np.clip(rng.choice([0.0, np.pi / 2, -np.pi / 2, np.pi]) + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-12, -4), lo, hi))
    return float(rng.uniform(lo, hi))


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def same_angles(chk, a, b, tol, what, **data):
    chk.close([wrap(x - y) for x, y in zip(a, b)], np.zeros(len(a)), tol, what, got_angles=a, given=b, **data)


def proper(chk, R, what):
    R = np.asarray(R)[:3, :3]
    chk.close(R @ R.T, np.eye(3), 1e-7, what + ": not orthonormal")
    chk.expect(np.linalg.det(R) > 0, what + ": not a rotation")


def angles(chk, rng):
    from opensfm import geometry, multiview

    pan, tilt, roll = angle(rng), angle(rng, -np.pi / 2, np.pi / 2), angle(rng)
    chk.case("angles", {"pan": pan, "tilt": tilt, "roll": roll})
    R = geometry.rotation_from_ptr(pan, tilt, roll)
    chk.close(R, ax(2, roll) @ ax(0, tilt + np.pi / 2) @ ax(2, pan), 1e-9, "rotation_from_ptr")
    proper(chk, R, "rotation_from_ptr")
    # the optical axis: pan clockwise from north, positive tilt downwards
    chk.close(R[2], [np.sin(pan) * np.cos(tilt), np.cos(pan) * np.cos(tilt), -np.sin(tilt)], 1e-9, "optical axis of pan and tilt")
    chk.close(geometry.rotation_from_ptr_v2(pan, tilt, roll), R, 1e-9, "the two pan/tilt/roll implementations")
    if abs(tilt) < np.pi / 2 - 1e-4:
        got = geometry.ptr_from_rotation(R)
        same_angles(chk, got, (pan, tilt, roll), 1e-6, "ptr_from_rotation", rotation=R)
        same_angles(chk, geometry.ptr_from_rotation_v2(R), (pan, tilt, roll), 1e-6, "ptr_from_rotation_v2", rotation=R)
        chk.close(np.radians(multiview.camera_compass_angle(R)), geometry.pan_from_rotation(R), 1e-9, "compass angle and pan")
    chk.close(geometry.rotation_from_ptr_v2(*geometry.ptr_from_rotation_v2(R)), R, 1e-7, "ptr_v2 round trip")
    chk.close(geometry.tilt_from_rotation(R), tilt, 1e-7, "tilt_from_rotation")

    o, p, k = angle(rng), angle(rng, -np.pi / 2, np.pi / 2), angle(rng)
    R = geometry.rotation_from_opk(o, p, k)
    want = np.diag([1.0, -1.0, -1.0]) @ (ax(0, o) @ ax(1, p) @ ax(2, k)).T
    chk.close(R, want, 1e-9, "rotation_from_opk", opk=(o, p, k))
    back = geometry.opk_from_rotation(R)
    chk.expect(np.isfinite(back).all(), "opk_from_rotation is not finite", got=back, opk=(o, p, k))
    if abs(p) < np.pi / 2 - 1e-4:
        same_angles(chk, back, (o, p, k), 1e-6, "opk_from_rotation")
    # any rotation, not only those built from angles
    R = gen.rand_rotation(rng)
    chk.close(geometry.rotation_from_opk(*geometry.opk_from_rotation(R)), R, 1e-6, "opk of any rotation")
    chk.close(geometry.rotation_from_ptr(*geometry.ptr_from_rotation(R)), R, 1e-6, "ptr of any rotation")
    v = rng.normal(size=3) * 10.0 ** rng.uniform(-3, 0.4)
    chk.close(geometry.rotation_from_angle_axis(v), gen.rodrigues(v), 1e-8, "rotation_from_angle_axis")


def compass(chk, rng):
    from opensfm import multiview

    up = rng.normal(size=3) * 10.0 ** rng.uniform(-2, 2)
    k = rng.integers(4)
    if k == 0:
        up = np.eye(3)[rng.integers(3)] * rng.choice([-1.0, 1.0])
    elif k == 1:
        up = np.array([10.0 ** rng.uniform(-12, -3), 0, rng.choice([-1.0, 1.0])])
    a = float(np.degrees(angle(rng)))
    chk.case("compass", {"up": up, "angle": a})
    R = multiview.rotation_matrix_from_up_vector_and_compass(list(up), a)
    proper(chk, R, "rotation from up vector and compass")
    u = up / np.linalg.norm(up)
    chk.close(R @ [0, 0, 1], u, 1e-9, "world up in camera coordinates", rotation=R)
    chk.close(multiview.camera_up_vector(R), u, 1e-9, "camera_up_vector", rotation=R)
    if np.linalg.norm(u[:2]) > 1e-4:
        z = R[2]
        chk.close(wrap(np.arctan2(z[0], z[1]) - np.radians(a)), 0, 1e-6, "heading of the optical axis", rotation=R)
        chk.close(wrap(np.radians(multiview.camera_compass_angle(R) - a)), 0, 1e-6, "camera_compass_angle")


# EXIF orientation: which side of the scene the first stored row and column show
SIDES = {1: ("top", "left"), 2: ("top", "right"), 3: ("bottom", "right"), 4: ("bottom", "left"),
         5: ("left", "top"), 6: ("right", "top"), 7: ("right", "bottom"), 8: ("left", "bottom")}


def to_upright(img, o):
    row0, col0 = SIDES[o]
    if row0 in ("left", "right"):
        img = img.T
        row0, col0 = col0, row0
    if row0 == "bottom":
        img = img[::-1]
    if col0 == "right":
        img = img[:, ::-1]
    return img


def up_in_image(o):
    """Where the top of the scene lies in the stored image (x right, y down)."""
    row0, col0 = SIDES[o]
    return {("row", "top"): [0, -1, 0], ("row", "bottom"): [0, 1, 0],
            ("col", "top"): [-1, 0, 0], ("col", "bottom"): [1, 0, 0]}[
        ("row", row0) if row0 in ("top", "bottom") else ("col", col0)]


def upright(chk, rng):
    from opensfm import features, reconstruction_helpers
    from opensfm.upright import opensfm_to_upright

    w, h = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    o = int(rng.integers(1, 9))
    chk.case("upright", {"size": (w, h), "orientation": o})
    img = np.arange(w * h).reshape(h, w)
    up = to_upright(img, o)
    x, y = np.meshgrid(np.arange(w), np.arange(h))
    px = np.stack([x.ravel(), y.ravel()], 1).astype(float)
    co = features.normalized_image_coordinates(px, w, h)
    keep = co.copy()
    ok, p = chk.guard(lambda: opensfm_to_upright(co, w, h, o), "opensfm_to_upright")
    if not ok:
        return
    chk.close(co, keep, 0, "opensfm_to_upright changes its input")
    q = np.floor(p + 1e-9).astype(int)
    inside = (q >= 0).all() and (q[:, 0] < up.shape[1]).all() and (q[:, 1] < up.shape[0]).all()
    if chk.expect(inside, "upright coordinates outside the upright image", orientation=o, size=(w, h)):
        chk.expect((up[q[:, 1], q[:, 0]] == img.ravel()).all(), "upright coordinates point at another pixel",
                   orientation=o, size=(w, h))
    nw, nh = int(rng.integers(1, 90)), int(rng.integers(1, 90))
    scaled = opensfm_to_upright(co, w, h, o, new_width=nw, new_height=nh)
    chk.close(scaled, p / up.shape[::-1] * [nw, nh], 1e-9, "upright coordinates in a resized image", orientation=o)
    chk.close(reconstruction_helpers.guess_gravity_up_from_orientation_tag(o), up_in_image(o), 0,
              "up vector of an EXIF orientation", orientation=o)


def metadata(chk, rng, i):
    from opensfm import geometry, pygeometry, reconstruction_helpers as rh, types

    rec = types.Reconstruction()
    cam = pygeometry.Camera.create_perspective(0.9, 0, 0)
    cam.id = "c"
    rec.add_camera(cam)
    shot = rec.create_shot("s", "c")
    m = shot.metadata
    has = rng.random(4) < 0.6
    opk = [float(x) for x in rng.uniform(-180, 180, 3)]
    down = rng.normal(size=3)
    o = int(rng.integers(1, 9))
    heading = float(rng.uniform(-180, 180))
    chk.case("metadata", {"opk": opk if has[0] else None, "gravity_down": down if has[1] else None,
                          "orientation": o if has[2] else None, "compass": heading if has[3] else None}, sig=(chk.shard, i))
    if has[0]:
        m.opk_angles.value = np.array(opk)
    if has[1]:
        m.gravity_down.value = down
    if has[2]:
        m.orientation.value = o
    if has[3]:
        m.compass_angle.value = heading
    R = rh.rotation_from_shot_metadata(shot)
    if has[0]:
        chk.close(R, geometry.rotation_from_opk(*np.radians(opk)), 1e-9, "rotation from the angles in the metadata")
        return
    if not (has[1] or has[2]):
        chk.expect(R is None, "a rotation without any orientation metadata", got=R)
        return
    up = -down if has[1] else np.array(up_in_image(o), float)
    up /= np.linalg.norm(up)
    proper(chk, R, "rotation from metadata")
    chk.close(R @ [0, 0, 1], up, 1e-9, "up direction of the metadata")
    z = R[2]
    chk.close(wrap(np.arctan2(z[0], z[1]) - np.radians(heading if has[3] else 0.0)), 0, 1e-6, "heading of the metadata")


AXES = ["".join((f,) + p) for f in "sr" for p in itertools.product("xyz", repeat=3) if p[0] != p[1] and p[1] != p[2]]


def euler(chk, rng, i):
    from opensfm import transformations as t

    axes = AXES[i % len(AXES)]
    rep = axes[1] == axes[3]
    a, c = angle(rng), angle(rng)
    b = angle(rng, 0, np.pi) if rep else angle(rng, -np.pi / 2, np.pi / 2)
    chk.case("euler", {"axes": axes, "angles": (a, b, c)})
    idx = ["xyz".index(x) for x in axes[1:]]
    E = [ax(j, x) for j, x in zip(idx, (a, b, c))]
    want = E[2] @ E[1] @ E[0] if axes[0] == "s" else E[0] @ E[1] @ E[2]
    M = t.euler_matrix(a, b, c, axes)
    chk.close(M[:3, :3], want, 1e-9, "euler_matrix " + axes)
    chk.close(M[[0, 1, 2, 3, 3, 3, 3], [3, 3, 3, 0, 1, 2, 3]], [0, 0, 0, 0, 0, 0, 1], 0, "euler_matrix is not homogeneous")
    got = t.euler_from_matrix(M, axes)
    lock = np.abs(np.sin(b)) if rep else np.abs(np.cos(b))
    # so close to gimbal lock that rounding decides the angles: not judged
    if lock > 1e-5 or lock < 1e-16:
        chk.close(t.euler_matrix(*got, axes)[:3, :3], want, 1e-7, "euler_from_matrix " + axes)
    if lock > 1e-4:
        given = (a, b, c)
        if rep and wrap(got[1]) * wrap(b) < 0:
            given = (a + np.pi, -b, c + np.pi)
        same_angles(chk, got, given, 1e-6, "Euler angles " + axes)
    q = t.quaternion_from_euler(a, b, c, axes)
    chk.close(gen.quat_matrix(q), want, 1e-9, "quaternion_from_euler " + axes)
    got = t.euler_from_quaternion(q, axes)
    if lock > 1e-5:
        chk.close(t.euler_matrix(*got, axes)[:3, :3], want, 1e-7, "euler_from_quaternion " + axes)
    R = gen.rand_rotation(rng)
    chk.close(t.euler_matrix(*t.euler_from_matrix(R, axes), axes)[:3, :3], R, 1e-7, "Euler angles of any rotation " + axes)
    code = t._AXES2TUPLE[axes]
    chk.close(t.euler_matrix(a, b, c, code), M, 0, "axes given as a tuple " + axes)


def quaternion(chk, rng):
    from opensfm import transformations as t

    v = rng.normal(size=3)
    v /= np.linalg.norm(v)
    if rng.random() < 0.3:
        v = np.eye(3)[rng.integers(3)]
    a = angle(rng)
    chk.case("quaternion", {"axis": v, "angle": a})
    R = gen.rodrigues(a * v)
    s = float(np.exp(rng.uniform(-2, 2)))
    q = t.quaternion_about_axis(a, v * s)
    chk.close(np.linalg.norm(q), 1, 1e-12, "length of quaternion_about_axis")
    chk.close(t.quaternion_matrix(q)[:3, :3], R, 1e-9, "quaternion_about_axis")
    chk.close(t.quaternion_matrix(q * s)[:3, :3], R, 1e-9, "quaternion_matrix of an unnormalized quaternion")
    T = np.eye(4)
    T[:3, :3] = R
    for precise in (False, True):
        ok, g = chk.guard(lambda: t.quaternion_from_matrix(T, precise), "quaternion_from_matrix")
        if ok:
            chk.close(gen.quat_matrix(g), R, 1e-7, "quaternion_from_matrix(isprecise=%s)" % precise, got_quaternion=g)
            chk.expect(g[0] >= 0, "quaternion_from_matrix sign", got=g)
    p = rng.normal(size=4)
    Rp = gen.quat_matrix(p / np.linalg.norm(p))
    n = np.linalg.norm(p)
    chk.close(gen.quat_matrix(t.quaternion_multiply(q, p / n)), R @ Rp, 1e-9, "quaternion_multiply")
    chk.close(t.quaternion_multiply(p, t.quaternion_inverse(p)), [1, 0, 0, 0], 1e-9, "quaternion_inverse")
    chk.close(t.quaternion_conjugate(p), [p[0], -p[1], -p[2], -p[3]], 0, "quaternion_conjugate")
    chk.close(t.quaternion_real(p), p[0], 0, "quaternion_real")
    chk.close(t.quaternion_imag(p), p[1:], 0, "quaternion_imag")
    # interpolation turns at constant speed about one axis
    f = float(rng.choice([0.0, 1.0, 0.5, rng.random()]))
    if abs(abs(np.dot(q, p / n)) - 1) > 1e-6:
        g = t.quaternion_slerp(q, p, f)
        chk.close(np.linalg.norm(g), 1, 1e-9, "length of an interpolated quaternion")
        whole = gen.log_rotation(Rp @ R.T)
        if np.linalg.norm(whole) < np.pi - 1e-3:
            chk.close(gen.quat_matrix(g), gen.rodrigues(whole * f) @ R, 1e-6, "quaternion_slerp", fraction=f, first=q, second=p)
    u = rng.random(3)
    chk.close(np.linalg.norm(t.random_quaternion(u)), 1, 1e-12, "random_quaternion")
    proper(chk, t.random_rotation_matrix(u), "random_rotation_matrix")


def homogeneous(chk, rng):
    from opensfm import multiview, transformations as t

    d, pt = rng.normal(size=3), rng.normal(size=3) * 10.0 ** rng.uniform(-2, 2)
    dn = d / np.linalg.norm(d)
    a = angle(rng)
    chk.case("homogeneous", {"direction": d, "point": pt, "angle": a})
    h = np.append(pt, 1)
    scale = 1 + np.abs(pt).max()
    M = t.rotation_matrix(a, d, pt)
    chk.close(M[:3, :3], gen.rodrigues(a * dn), 1e-9, "rotation_matrix")
    chk.close(M @ h, h, 1e-9 * scale, "rotation_matrix moves its point")
    if 1e-2 < abs(a) < np.pi - 1e-2:
        ok, r = chk.guard(lambda: t.rotation_from_matrix(M), "rotation_from_matrix")
        if ok:
            chk.close(t.rotation_matrix(*r), M, 1e-5 * scale, "rotation_from_matrix")
    X = np.append(rng.normal(size=3), 1)
    F = t.reflection_matrix(pt, d)
    want = X[:3] - 2 * np.dot(X[:3] - pt, dn) * dn
    chk.close((F @ X)[:3], want, 1e-9 * scale, "reflection_matrix")
    ok, r = chk.guard(lambda: t.reflection_from_matrix(F), "reflection_from_matrix")
    if ok:
        chk.close(t.reflection_matrix(*r), F, 1e-5 * scale, "reflection_from_matrix")
    s = float(rng.choice([-1.0, 2.0, rng.uniform(0.1, 5)]))
    chk.close((t.scale_matrix(s, pt) @ X)[:3], pt + s * (X[:3] - pt), 1e-9 * scale, "scale_matrix")
    along = np.dot(X[:3] - pt, dn)
    chk.close((t.scale_matrix(s, pt, d) @ X)[:3], X[:3] + (s - 1) * along * dn, 1e-9 * scale, "scale_matrix in a direction")
    if abs(s - 1) > 0.1:
        for S in (t.scale_matrix(s, pt), t.scale_matrix(s, pt, d)):
            ok, r = chk.guard(lambda: t.scale_from_matrix(S), "scale_from_matrix")
            if ok:
                chk.close(t.scale_matrix(*r), S, 1e-5 * scale, "scale_from_matrix")
    P = t.projection_matrix(pt, d)
    chk.close((P @ X)[:3], X[:3] - along * dn, 1e-9 * scale, "projection_matrix")
    e = rng.normal(size=3)
    if abs(np.dot(e / np.linalg.norm(e), dn)) > 0.1:
        P = t.projection_matrix(pt, d, direction=e)
        chk.close((P @ X)[:3], X[:3] - along / np.dot(e, dn) * e, 1e-8 * scale, "projection_matrix along a direction")
    eye = pt + dn * rng.uniform(1, 3) + 0.3 * rng.normal(size=3)
    P = t.projection_matrix(pt, d, perspective=eye)
    Y = P @ X
    ray = X[:3] - eye
    if abs(np.dot(ray, dn)) > 0.2:
        hit = eye + ray * np.dot(pt - eye, dn) / np.dot(ray, dn)
        chk.close(Y[:3] / Y[3], hit, 1e-6 * scale * (1 + np.abs(hit).max()), "perspective projection_matrix")
    # decomposition
    sc = np.exp(rng.uniform(-1, 1, 3))
    sh = rng.uniform(-1, 1, 3)
    an = np.array([angle(rng), rng.uniform(-1.5, 1.5), angle(rng)])
    M = t.compose_matrix(sc, sh, an, pt)
    Z = np.eye(3)
    Z[0, 1], Z[0, 2], Z[1, 2] = sh
    chk.close(M[:3, :3], ax(2, an[2]) @ ax(1, an[1]) @ ax(0, an[0]) @ Z @ np.diag(sc), 1e-9, "compose_matrix")
    chk.close(M[:3, 3], pt, 0, "compose_matrix translation")
    r = t.decompose_matrix(M)
    chk.close(r[0], sc, 1e-8, "decompose_matrix scale")
    chk.close(r[1], sh, 1e-7, "decompose_matrix shear")
    same_angles(chk, r[2], an, 1e-6, "decompose_matrix angles")
    chk.close(r[3], pt, 1e-9, "decompose_matrix translation")
    chk.close(t.compose_matrix(*r), M, 1e-7 * scale, "decompose and compose")
    # registration of two point sets
    n = int(rng.integers(3, 9))
    A = rng.normal(size=(3, n))
    if n == 3 or rng.random() < 0.2:
        A[2] = 0  # a plane is enough
    R = gen.rand_rotation(rng)
    B = s_abs(s) * R @ A + pt[:, None]
    for svd in (True, False):
        for withscale in (True, False):
            B2 = B if withscale else R @ A + pt[:, None]
            M = t.superimposition_matrix(A, B2, scale=withscale, usesvd=svd)
            chk.close(M[:3, :3] @ A + M[:3, 3:], B2, 1e-6 * scale, "superimposition_matrix(scale=%s, usesvd=%s)" % (withscale, svd))
    if n > 4 and np.abs(A[2]).max() > 0:
        C = rng.normal(size=(3, 3)) @ A + pt[:, None]
        M = t.affine_matrix_from_points(A, C)
        chk.close(M[:3, :3] @ A + M[:3, 3:], C, 1e-5 * scale * 10, "affine_matrix_from_points")
    # small things
    chk.close(t.translation_matrix(pt)[:3, 3], pt, 0, "translation_matrix")
    chk.close(t.translation_from_matrix(t.translation_matrix(pt)), pt, 0, "translation_from_matrix")
    chk.close(t.unit_vector(d), dn, 1e-12, "unit_vector")
    chk.close(t.vector_norm(d), np.linalg.norm(d), 1e-12, "vector_norm")
    D = rng.normal(size=(4, 3))
    chk.close(t.unit_vector(D, axis=1), D / np.linalg.norm(D, axis=1)[:, None], 1e-12, "unit_vector along an axis")
    chk.close(t.vector_norm(D, axis=0), np.linalg.norm(D, axis=0), 1e-12, "vector_norm along an axis")
    chk.close(t.angle_between_vectors(d, gen.rodrigues(a * np.cross(dn, e) / np.linalg.norm(np.cross(dn, e))) @ d), abs(wrap(a)), 1e-6, "angle_between_vectors")
    chk.close(multiview.vector_angle(d, gen.rodrigues(a * np.cross(dn, e) / np.linalg.norm(np.cross(dn, e))) @ d), abs(wrap(a)), 1e-6, "vector_angle")
    chk.close(t.concatenate_matrices(M, F, P), M @ F @ P, 1e-12, "concatenate_matrices", rel=True)
    chk.close(t.inverse_matrix(F) @ F, np.eye(4), 1e-8 * scale, "inverse_matrix")
    chk.expect(t.is_same_transform(M, 2 * M) and not t.is_same_transform(np.eye(4), t.rotation_matrix(1.0, d)), "is_same_transform")
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = s_abs(s) * R, pt
    r = multiview.decompose_similarity_transform(T)
    chk.close(r[0], s_abs(s), 1e-9, "decompose_similarity_transform scale")
    chk.close(r[1], R, 1e-9, "decompose_similarity_transform rotation")
    chk.close(r[2], pt, 0, "decompose_similarity_transform translation")
    lo, hi = np.sort(rng.uniform(1, 9, 6).reshape(2, 3), axis=0)
    C = t.clip_matrix(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2])
    chk.close(C @ np.append(lo, 1), [-1, -1, -1, 1], 1e-6, "clip_matrix near corner")
    chk.close(C @ np.append(hi, 1), [1, 1, 1, 1], 1e-6, "clip_matrix far corner")
    le, an = rng.uniform(1, 9, 3), rng.uniform(70, 110, 3)
    O = t.orthogonalization_matrix(le, an)[:3, :3]
    chk.close(np.linalg.norm(O, axis=0), le, 1e-8, "orthogonalization_matrix lengths")


def s_abs(s):
    return abs(s)


def run(chk):
    for i in range(chk.n(2400, 60000)):
        rng = chk.rng_for(i)
        angles(chk, rng)
        compass(chk, rng)
        euler(chk, rng, i)
        quaternion(chk, rng)
        upright(chk, rng)
        if i % 2 == 0:
            metadata(chk, rng, i)
            homogeneous(chk, rng)
