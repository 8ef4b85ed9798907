"""C06: the track manager answers according to the operations performed."""
import copy
import itertools

import numpy as np

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pymap"]
REQUIRED = ["observations added", "observations removed", "managers compared", "managers merged", "merges repeated", "sub-managers",
            "absent elements asked for"]
RULE = ("one case = one history of additions, overwrites and removals on a few managers, every answer of every manager "
        "compared with a dictionary (shot, track) -> observation; non-trivial when at least one observation was added")
ASSUMPTIONS = ["whether a shot or track whose last observation was removed is still listed is left open",
               "when merging joins tracks with different features of one image, any one of them may be kept"]


def obs_tuple(o):
    d = o.depth_prior
    return (tuple(map(float, o.point)), float(o.scale), tuple(map(int, o.color)), int(o.id), int(o.segmentation),
            int(o.instance), None if d is None else (d.value, d.is_radial, d.std_deviation))


def make_obs(rng, feature=None):
    from opensfm import pymap

    x, y, s = rng.normal(size=3)
    o = pymap.Observation(x, y, abs(s), *[int(c) for c in rng.integers(0, 256, 3)],
                          int(rng.integers(0, 6) if feature is None else feature),
                          int(rng.integers(-1, 300)), int(rng.integers(-1, 300)))
    if rng.random() < 0.2:
        o.depth_prior = pymap.Depth(value=float(rng.random()), is_radial=bool(rng.random() < 0.5), std_deviation=float(rng.random()))
    return o


def raises(fn):
    try:
        fn()
        return False
    except (RuntimeError, KeyError, IndexError, ValueError):
        return True


class Model:
    def __init__(self):
        self.obs = {}
        self.shots, self.tracks = set(), set()

    def by_shot(self, s):
        return {t: o for (s2, t), o in self.obs.items() if s2 == s}

    def by_track(self, t):
        return {s: o for (s, t2), o in self.obs.items() if t2 == t}


def compare(chk, rng, tm, m, what):
    chk.count("managers compared")
    shots, tracks = tm.get_shot_ids(), tm.get_track_ids()
    live_s, live_t = {s for s, _ in m.obs}, {t for _, t in m.obs}
    chk.expect(len(set(shots)) == len(shots) and live_s <= set(shots) <= m.shots, what + ": shot ids",
               got=shots, present=live_s)
    chk.expect(len(set(tracks)) == len(tracks) and live_t <= set(tracks) <= m.tracks, what + ": track ids",
               got=tracks, present=live_t)
    chk.expect(tm.num_shots() == len(shots) and tm.num_tracks() == len(tracks), what + ": counts",
               shots=tm.num_shots(), tracks=tm.num_tracks())
    for s in live_s:
        got = {t: obs_tuple(o) for t, o in tm.get_shot_observations(s).items()}
        chk.expect(got == m.by_shot(s), what + ": observations of a shot", shot=s, got=got, expected=m.by_shot(s))
    for t in live_t:
        got = {s: obs_tuple(o) for s, o in tm.get_track_observations(t).items()}
        chk.expect(got == m.by_track(t), what + ": observations of a track", track=t, got=got, expected=m.by_track(t))
    for s in m.shots - live_s:
        if s in shots:
            chk.expect(tm.get_shot_observations(s) == {}, what + ": an emptied shot has observations", shot=s)
    for t in m.tracks - live_t:
        if t in tracks:
            chk.expect(tm.get_track_observations(t) == {}, what + ": an emptied track has observations", track=t)
    for s in sorted(m.shots) + ["absent"]:
        for t in sorted(m.tracks) + ["absent"]:
            if (s, t) in m.obs:
                chk.expect(obs_tuple(tm.get_observation(s, t)) == m.obs[s, t], what + ": single observation", shot=s, track=t)
            else:
                chk.count("absent elements asked for")
                chk.expect(raises(lambda: tm.get_observation(s, t)), what + ": an absent observation was returned", shot=s, track=t)
    chk.expect(raises(lambda: tm.get_shot_observations("absent")), what + ": observations of an absent shot")
    chk.expect(raises(lambda: tm.get_track_observations("absent")), what + ": observations of an absent track")
    for a, b in itertools.product(sorted(live_s), repeat=2):
        got = {t: (obs_tuple(o1), obs_tuple(o2)) for t, o1, o2 in tm.get_all_common_observations(a, b)}
        n = len(tm.get_all_common_observations(a, b))
        A, B = m.by_shot(a), m.by_shot(b)
        want = {t: (A[t], B[t]) for t in A if t in B}
        chk.expect(got == want and n == len(want), what + ": common observations", shots=(a, b), got=got, expected=want)
    chk.expect(raises(lambda: tm.get_all_common_observations("absent", shots[0] if shots else "x")), what + ": common observations of an absent shot")
    # connectivity, whole and restricted
    some_s = [s for s in sorted(m.shots) if rng.random() < 0.7]
    some_t = [t for t in sorted(m.tracks) if rng.random() < 0.7]
    for S, T in (((), ()), (some_s, some_t), (some_s, ()), ((), some_t), (some_s + ["absent"], some_t + ["absent"])):
        got = dict(tm.get_all_pairs_connectivity(list(S), list(T)))
        useS = set(S) if S else live_s
        useT = set(T) if T else live_t
        want = {}
        for t in useT:
            on = sorted(s for s in m.by_track(t) if s in useS)
            for a, b in itertools.combinations(on, 2):
                want[frozenset((a, b))] = want.get(frozenset((a, b)), 0) + 1
        norm = {frozenset(k): v for k, v in got.items()}
        chk.expect(len(norm) == len(got) and norm == want, what + ": pair connectivity", shots=S, tracks=T, got=got)


def sub_manager(chk, rng, tm, m):
    S = [s for s in sorted(m.shots) if rng.random() < 0.6] + (["absent"] if rng.random() < 0.3 else [])
    T = [t for t in sorted(m.tracks) if rng.random() < 0.6] + (["absent"] if rng.random() < 0.3 else [])
    sub = tm.construct_sub_tracks_manager(T, S)
    chk.count("sub-managers")
    k = Model()
    k.obs = {(s, t): o for (s, t), o in m.obs.items() if s in S and t in T}
    k.shots, k.tracks = {s for s, _ in k.obs}, {t for _, t in k.obs}
    compare(chk, rng, sub, k, "sub-manager")
    return sub, k


def merge(chk, rng, pairs):
    import networkx as nx
    from opensfm import pymap

    merged = pymap.TracksManager.merge_tracks_manager([tm for tm, _ in pairs])
    chk.count("managers merged")
    g = nx.Graph()
    for i, (_, m) in enumerate(pairs):
        for (s, t), o in m.obs.items():
            g.add_edge(("track", i, t), ("feature", s, o[3]))
    want = []
    for comp in nx.connected_components(g):
        cand = {}
        for kind, i, t in (c for c in comp if c[0] == "track"):
            for s, o in pairs[i][1].by_track(t).items():
                cand.setdefault(s, set()).add(o)
        want.append(cand)
    got = [{s: obs_tuple(o) for s, o in merged.get_track_observations(t).items()} for t in merged.get_track_ids()]
    got = [g for g in got if g]
    chk.expect(len(got) == len(want), "merged manager: number of tracks", got=len(got), expected=len(want))
    left = list(want)
    for track in got:
        hit = [w for w in left if set(w) == set(track) and all(track[s] in w[s] for s in track)]
        if not chk.expect(bool(hit), "merged manager: a track is not the union of the tracks sharing its features",
                          track=track, candidates=[sorted(w) for w in left]):
            return
        left.remove(hit[0])
    k = Model()
    for t in merged.get_track_ids():
        k.tracks.add(t)
        for s, o in merged.get_track_observations(t).items():
            k.obs[s, t] = obs_tuple(o)
            k.shots.add(s)
    compare(chk, rng, merged, k, "merged manager")
    # the names of the merged tracks come from the tracks, not from where they are in memory
    junk = [bytes(int(n)) for n in rng.integers(16, 4096, int(rng.integers(200)))]
    del junk[:: 1 + int(rng.integers(3))]
    again = pymap.TracksManager.merge_tracks_manager([tm for tm, _ in pairs])
    named = lambda tm: {t: {s: obs_tuple(o) for s, o in tm.get_track_observations(t).items()} for t in tm.get_track_ids()}
    chk.expect(named(merged) == named(again), "merged manager: merging again gives other tracks", tracks=len(got))
    chk.count("merges repeated")


def history(chk, rng, i):
    from opensfm import pymap, tracking

    nS, nT = int(rng.integers(1, 6)), int(rng.integers(1, 7))
    shots = [str(x) for x in rng.choice(["im%d" % j for j in range(9)] + ["", "ünï", "a b", "1", "01"], nS, replace=False)]
    tracks = [str(x) for x in rng.choice(["%d" % j for j in range(12)] + ["", "t x", "π"], nT, replace=False)]
    ops = []
    chk.case("history", {"operations": ops}, sig=(chk.shard, i))
    pool = [(pymap.TracksManager(), Model())]
    for step in range(int(rng.integers(2, 40))):
        tm, m = pool[int(rng.integers(len(pool)))]
        k = rng.random()
        s, t = shots[rng.integers(nS)], tracks[rng.integers(nT)]
        if k < 0.62:
            o = make_obs(rng)
            ops.append(["add", s, t, obs_tuple(o)])
            chk.count("observations added")
            tm.add_observation(s, t, o)
            m.obs[s, t] = obs_tuple(o)
            m.shots.add(s)
            m.tracks.add(t)
            # what was handed over is a copy
            o.scale = 99.0
        elif k < 0.86:
            ops.append(["remove", s, t])
            if s in m.shots and t in m.tracks and (s, t) in m.obs:
                tm.remove_observation(s, t)
                chk.count("observations removed")
                del m.obs[s, t]
            else:
                chk.count("absent elements asked for")
                r = raises(lambda: tm.remove_observation(s, t))
                if s not in m.shots or t not in m.tracks:
                    chk.expect(r, "removing an observation of an unknown shot or track", shot=s, track=t)
        elif k < 0.92 and len(pool) < 4:
            ops.append(["new"])
            pool.append((pymap.TracksManager(), Model()))
        elif k < 0.97:
            ops.append(["sub"])
            sub, km = sub_manager(chk, rng, tm, m)
            if len(pool) < 4:
                pool.append((sub, km))
        else:
            # what a query returned does not follow later changes
            if m.obs:
                (s, t) = list(m.obs)[int(rng.integers(len(m.obs)))]
                o = tm.get_observation(s, t)
                before = obs_tuple(o)
                o.scale = 77.0
                chk.expect(obs_tuple(tm.get_observation(s, t)) == before, "changing a returned observation changes the manager")
    for tm, m in pool:
        compare(chk, rng, tm, m, "manager")
        if m.obs:
            g = tracking.as_graph(tm)
            edges = {}
            for s, t, d in g.edges(data=True):
                if g.nodes[s]["bipartite"] == 1:
                    s, t = t, s
                edges[s, t] = int(d["feature_id"])
            if not ({s for s in m.shots} & {t for t in m.tracks}):
                chk.expect(edges == {st: o[3] for st, o in m.obs.items()}, "tracking.as_graph")
            for mc in (1, 2):
                common = tracking.all_common_tracks_with_features(tm, mc)
                plain = tracking.all_common_tracks_without_features(tm, mc)
                want = {}
                live = sorted({s for s, _ in m.obs})
                for a, b in itertools.combinations(live, 2):
                    A, B = m.by_shot(a), m.by_shot(b)
                    both = {t: (A[t][0], B[t][0]) for t in A if t in B}
                    if len(both) >= mc:
                        want[frozenset((a, b))] = {t: (dict(((a, p), (b, q)))) for t, (p, q) in both.items()}
                got = {frozenset((a, b)): {t: {a: tuple(p), b: tuple(q)} for t, p, q in zip(*v)} for (a, b), v in common.items()}
                chk.expect(got == want, "tracking.all_common_tracks_with_features", minimum=mc)
                chk.expect({frozenset(k): set(v) for k, v in plain.items()} == {k: set(v) for k, v in want.items()},
                           "tracking.all_common_tracks_without_features", minimum=mc)
            live = sorted({s for s, _ in m.obs})
            a, b = live[int(rng.integers(len(live)))], live[int(rng.integers(len(live)))]
            ts, p1, p2 = tracking.common_tracks(tm, a, b)
            A, B = m.by_shot(a), m.by_shot(b)
            chk.expect({t: (tuple(p), tuple(q)) for t, p, q in zip(ts, p1, p2)} == {t: (A[t][0], B[t][0]) for t in A if t in B},
                       "tracking.common_tracks")
            w = tracking.as_weighted_graph(tm)
            chk.expect(live and set(live) <= set(w.nodes), "tracking.as_weighted_graph nodes")
            for a, b in itertools.combinations(live, 2):
                n = len(set(m.by_shot(a)) & set(m.by_shot(b)))
                chk.expect((w.get_edge_data(a, b) or {"weight": 0})["weight"] == n, "tracking.as_weighted_graph weight", shots=(a, b))
    if len(pool) > 1 or rng.random() < 0.3:
        merge(chk, rng, pool)
    chk.extreme("managers alive", len(pool))


def run(chk):
    for i in range(chk.n(1600, 40000)):
        history(chk, chk.rng_for(i), i)
