"""C03: poses and similarities are one rigid motion / similarity after any history."""
import copy
import pickle

import numpy as np

import gen

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pygeometry"]
REQUIRED = ["pose updates", "pose states compared", "compositions", "similarity states compared"]
RULE = ("one case = one history of constructor, setter, copy, pickle, composition and inversion calls on poses or "
        "similarities, every state compared with a plain rotation matrix and vector kept next to it; non-trivial when "
        "at least one setter was called after construction")
ASSUMPTIONS = ["rotation vectors are compared through the rotation they stand for (the sign at half a turn is free)",
               "lengths up to 1e6; tolerance 1e-9 relative to the lengths involved"]


def rot(rng):
    k = rng.integers(8)
    axis = rng.normal(size=3)
    axis /= np.linalg.norm(axis)
    if k == 0:
        return np.eye(3)
    if k == 1:
        return gen.rodrigues(axis * 10.0 ** rng.uniform(-12, -3))
    if k == 2:
        return gen.rodrigues(axis * (np.pi - 10.0 ** rng.uniform(-12, -3)))
    if k == 3:
        axis = np.eye(3)[rng.integers(3)]
        return gen.rodrigues(axis * np.pi * rng.choice([0.5, 1.0, -0.5]))
    return gen.rand_rotation(rng)


def vec(rng):
    k = rng.integers(5)
    if k == 0:
        return np.zeros(3)
    return rng.normal(size=3) * 10.0 ** rng.uniform(-3, 6 if k == 1 else 2)


def rotvec(rng, R):
    """A vector for R, not always the shortest one."""
    r = gen.log_rotation(R)
    a = np.linalg.norm(r)
    if a > 1e-3 and rng.random() < 0.3:
        r = r / a * (a + 2 * np.pi * rng.choice([-1, 1, 2]))
    return r


class Model:
    """What the pose should be: x_cam = R x + t."""

    def __init__(self, R, t):
        self.R, self.t = np.array(R, dtype=float), np.array(t, dtype=float)

    def origin(self):
        return -self.R.T @ self.t

    def inv(self):
        return Model(self.R.T, self.origin())


def check_pose(chk, rng, pose, m, what, scale):
    tol = 1e-9 * scale
    chk.count("pose states compared")
    R, t, o = m.R, m.t, m.origin()
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = R, t
    Ti = np.eye(4)
    Ti[:3, :3], Ti[:3, 3] = R.T, o
    c = chk.close
    c(pose.get_rotation_matrix(), R, 1e-9, what + ": rotation matrix")
    c(pose.get_R_world_to_cam(), R, 1e-9, what + ": R world to camera")
    c(pose.get_R_cam_to_world(), R.T, 1e-9, what + ": R camera to world")
    c(pose.translation, t, tol, what + ": translation")
    c(pose.get_t_world_to_cam(), t, tol, what + ": t world to camera")
    c(pose.get_origin(), o, tol, what + ": origin")
    c(pose.get_t_cam_to_world(), o, tol, what + ": t camera to world")
    c(pose.get_world_to_cam(), T, tol, what + ": world to camera matrix")
    c(pose.get_cam_to_world(), Ti, tol, what + ": camera to world matrix")
    c(pose.get_Rt(), T[:3], tol, what + ": Rt matrix")
    for name, r, M in (("rotation", pose.rotation, R), ("R_world_to_cam_min", pose.get_R_world_to_cam_min(), R),
                       ("R_cam_to_world_min", pose.get_R_cam_to_world_min(), R.T)):
        c(gen.rodrigues(r), M, 1e-7, what + ": " + name)
        chk.expect(np.linalg.norm(r) <= np.pi + 1e-9, what + ": %s is longer than half a turn" % name, got=r)
    X = rng.normal(size=(4, 3)) * scale
    Y = X @ R.T + t
    s = 1e-9 * (scale + np.abs(X).max())
    c([pose.transform(x) for x in X], Y, s, what + ": transform")
    c(pose.transform_many(X), Y, s, what + ": transform_many")
    Z = (X - t) @ R
    c([pose.transform_inverse(x) for x in X], Z, s, what + ": transform_inverse")
    c(pose.transform_inverse_many(X), Z, s, what + ": transform_inverse_many")
    c(pose.transform_inverse_many(pose.transform_many(X)), X, s, what + ": transform and back")
    q = pose.inverse()
    c(q.get_world_to_cam(), Ti, tol, what + ": inverse")
    c(q.get_cam_to_world(), T, tol, what + ": inverse of the inverse")
    far = np.linalg.norm(o) > 1e-6 or gen.rotation_angle(R) > 1e-6
    near = np.abs(T - np.eye(4)).max() == 0
    if far or near:
        chk.expect(pose.is_identity(1e-9) == near, what + ": is_identity")


def pose_history(chk, rng, i):
    from opensfm import pygeometry

    P = pygeometry.Pose
    pool = []
    ops = []
    scale = 1.0
    n = int(rng.integers(3, 14))
    data = {"history": ops}
    chk.case("pose history", data, sig=(chk.shard, i))

    def build():
        nonlocal scale
        k = rng.integers(6)
        R, t = rot(rng), vec(rng)
        if k == 0:
            p, m = P(), Model(np.eye(3), np.zeros(3))
        elif k == 1:
            p, m = P(R), Model(R, np.zeros(3))
        elif k == 2:
            p, m = P(R, t), Model(R, t)
        elif k == 3:
            p, m = P(rotvec(rng, R)), Model(R, np.zeros(3))
        elif k == 4:
            p, m = P(rotvec(rng, R), t), Model(R, t)
        else:
            p = P()
            p.set_from_cam_to_world(gen.log_rotation(R), t)
            m = Model(R, t).inv()
        scale = max(scale, np.abs(t).max())
        ops.append("construct %d" % k)
        pool.append([p, m])

    build()
    for _ in range(n):
        j = int(rng.integers(len(pool)))
        p, m = pool[j]
        k = int(rng.integers(17))
        R, t = rot(rng), vec(rng)
        if k in (0, 1, 2, 3, 4, 5, 6, 9):
            scale = max(scale, np.abs(t).max())
            chk.count("pose updates")
        T = np.eye(4)
        T[:3, :3], T[:3, 3] = R, t
        ops.append([j, k, gen.log_rotation(R), t])
        if k == 0:
            p.set_from_world_to_cam(T)
            m = Model(R, t)
        elif k == 1:
            p.set_from_world_to_cam(R, t)
            m = Model(R, t)
        elif k == 2:
            p.set_from_world_to_cam(rotvec(rng, R), t)
            m = Model(R, t)
        elif k == 3:
            p.set_from_cam_to_world(T)
            m = Model(R, t).inv()
        elif k == 4:
            p.set_from_cam_to_world(R, t)
            m = Model(R, t).inv()
        elif k == 5:
            p.set_from_cam_to_world(rotvec(rng, R), t)
            m = Model(R, t).inv()
        elif k == 6:
            p.set_origin(t)
            m = Model(m.R, -m.R @ t)
        elif k == 7:
            p.rotation = rotvec(rng, R)
            m = Model(R, m.t)
            chk.count("pose updates")
        elif k == 8:
            p.set_rotation_matrix(R)
            m = Model(R, m.t)
            chk.count("pose updates")
        elif k == 9:
            p.translation = t
            m = Model(m.R, t)
        elif k == 10:
            build()
            continue
        elif k == 11:
            pool.append([copy.deepcopy(p) if rng.random() < 0.5 else copy.copy(p), Model(m.R, m.t)])
            continue
        elif k == 12:
            pool.append([pickle.loads(pickle.dumps(p)), Model(m.R, m.t)])
            continue
        elif k == 13:
            q, mq = pool[int(rng.integers(len(pool)))]
            chk.count("compositions")
            p, m = p.compose(q), Model(m.R @ mq.R, m.R @ mq.t + m.t)
            scale *= 2
        elif k == 14:
            q, mq = pool[int(rng.integers(len(pool)))]
            chk.count("compositions")
            iq = mq.inv()
            p, m = p.relative_to(q), Model(m.R @ iq.R, m.R @ iq.t + m.t)
            scale *= 2
        elif k == 15:
            p, m = p.inverse(), m.inv()
        else:
            # group laws on the objects themselves
            q, mq = pool[int(rng.integers(len(pool)))]
            r, mr = pool[int(rng.integers(len(pool)))]
            s = 1e-9 * scale * 8
            chk.count("compositions", 6)
            a, b = p.compose(q).compose(r), p.compose(q.compose(r))
            chk.close(a.get_world_to_cam(), b.get_world_to_cam(), s, "associativity")
            e = p.compose(p.inverse())
            chk.close(e.get_world_to_cam(), np.eye(4), s, "composition with the inverse")
            chk.close(p.inverse().compose(p).get_world_to_cam(), np.eye(4), s, "composition of the inverse")
            chk.close(p.relative_to(q).compose(q).get_world_to_cam(), p.get_world_to_cam(), s, "relative pose composed back")
            chk.close(p.relative_to(q).get_world_to_cam(), p.compose(q.inverse()).get_world_to_cam(), s, "relative pose")
            chk.close(p.compose(q).inverse().get_world_to_cam(),
                      q.inverse().compose(p.inverse()).get_world_to_cam(), s, "inverse of a composition")
            chk.close(P().compose(p).get_world_to_cam(), p.get_world_to_cam(), s, "identity on the left")
            chk.close(p.compose(P()).get_world_to_cam(), p.get_world_to_cam(), s, "identity on the right")
            continue
        pool[j] = [p, m]
        check_pose(chk, rng, p, m, "after operation %d" % k, scale)
    # no operation on one pose changed another
    for p, m in pool:
        check_pose(chk, rng, p, m, "at the end", scale)
    chk.extreme("poses alive", len(pool))


def similarity_history(chk, rng, i):
    from opensfm import pygeometry

    S = pygeometry.Similarity
    ops = []
    chk.case("similarity history", {"history": ops}, sig=(chk.shard, i))

    def fresh():
        return rot(rng), vec(rng), float(np.exp(rng.uniform(-4, 4)))

    R, t, s = fresh()
    ops.append([gen.log_rotation(R), t, s])
    obj = S(rotvec(rng, R), t, s)
    size = 1.0
    for step in range(int(rng.integers(2, 8))):
        k = int(rng.integers(5))
        R2, t2, s2 = fresh()
        ops.append([k, gen.log_rotation(R2), t2, s2])
        if k == 0:
            obj.translation, t = t2, t2
        elif k == 1:
            obj.rotation, R = rotvec(rng, R2), R2
        elif k == 2:
            obj.scale, s = s2, s2
        elif k == 3:
            obj = obj.inverse()
            R, t, s = R.T, -R.T @ t / s, 1.0 / s
        else:
            obj = S(rotvec(rng, R2), t2, s2)
            R, t, s = R2, t2, s2
        size = max(size, np.abs(t).max(), np.abs(t).max() / s)
        chk.count("similarity states compared")
        tol = 1e-9 * size
        chk.close(obj.get_rotation_matrix(), R, 1e-9, "similarity rotation matrix")
        chk.close(gen.rodrigues(obj.rotation), R, 1e-7, "similarity rotation")
        chk.close(obj.translation, t, tol, "similarity translation")
        chk.close(obj.scale, s, 1e-9, "similarity scale", rel=True)
        X = rng.normal(size=(4, 3))
        Y = s * X @ R.T + t
        got = np.array([obj.transform(x) for x in X])
        chk.close(got, Y, tol * (1 + s), "similarity transform")
        inv = obj.inverse()
        back = np.array([inv.transform(y) for y in got])
        chk.close(back, X, 1e-8 * size * (1 + 1 / s), "similarity and its inverse")
        chk.close(inv.scale * obj.scale, 1.0, 1e-12, "scale of the inverse")
        again = np.array([inv.inverse().transform(x) for x in X])
        chk.close(again, Y, 1e-8 * size * (1 + s), "inverse of the inverse similarity")


def run(chk):
    for i in range(chk.n(4000, 60000)):
        pose_history(chk, chk.rng_for("pose", i), i)
    for i in range(chk.n(4000, 60000)):
        similarity_history(chk, chk.rng_for("similarity", i), i)
