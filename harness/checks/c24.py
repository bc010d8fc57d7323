from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st
from checks.c21 import expected_sas, walk
from checks.c23 import snap, unchanged, trajectories

RULE = ("cases are a deterministic world and a state and action, or worlds with trajectories; non-trivial: the line of sight meets at least two states and a feature, "
        "or some trajectory has at least two moves")
ASSUMPTIONS = ["deterministic worlds", "normalised counts are compared when positive and negative values do not nearly cancel",
               "the comparing variant leaves out staying in place (the last action of grid worlds with self-transitions)"]


@st.composite
def worlds(draw, values=feature_values, selft=None):
    if selft is None and draw(bools(1)):       # actions that go round in circles of many states
        n = draw(st.integers(7, 24))
        strides = draw(st.lists(st.sampled_from([1, 1, n - 1, 2, 3]), min_size=1, max_size=2))
        return dict(world="table", n=n, m=len(strides), T=[[[[s + d, 1]] for d in strides] for s in range(n)], features=draw(feature_rows(1, 3, values, 5)), seed=0, how=draw(handovers))
    if selft is None and draw(bools(3)):
        return draw(table_worlds(max_states=6, max_actions=3, stochastic=False, n_feat=(1, 3), values=values, dead=draw(st.booleans())))
    w = draw(grid_worlds(max_states=24, max_side=6, min_states=2, n_feat=(1, 3), values=values))
    if selft is not None:
        w["selft"] = selft
    return w


def sight(sas, F, s, a):
    seen = []
    while s not in seen:
        seen.append(s)
        if not sas[s, a].any():
            break
        s = int(np.argmax(sas[s, a]))
    return sum(F[:, x] for x in seen), seen


def check_line(c, ctx):
    from maMDP.algorithms.irl import get_eyeline_features
    ctx.touched = True
    mdp = build_world(c["w"])
    sas = expected_sas(c["w"])
    n, m, _ = sas.shape
    F = build_features(c["w"]["features"], n)
    s0 = snap(mdp)
    s1 = int(c["state"] % n)
    for s, a in [(s, a) for s in (range(n) if n <= 8 else [s1, (s1 + 1) % n]) for a in range(m)]:
        exp, seen = sight(sas, F, s, a)
        got = np.asarray(get_eyeline_features(mdp, s, a), dtype=float)
        require(got.shape == exp.shape and np.allclose(got, exp, atol=1e-9), "state {0}, action {1}: counted {2}, expected {3} along {4}", s, a, got.tolist(), exp.tolist(), seen)
        ctx.nontrivial(len(seen) > 1 and np.any(F[:, seen]))
        if len(seen) > 1 and sas[seen[-1], a].any():
            ctx.label("cycle")
            if len(seen) > 8:
                ctx.label("long cycle")
    ctx.label(c["w"]["world"])
    unchanged(mdp, s0)


@st.composite
def strat_line(draw, tier):
    return dict(w=draw(worlds()), state=draw(raw))


nonneg = st.sampled_from([1, 1, 1, 0, 0.5, 2, 3, 0.1, 0.1, 20])
nonpos = st.sampled_from([-1, -1, -1, 0, -0.5, -2, -3])


class Cancels(Exception):
    """positive and negative counts nearly cancel, so that normalising is not meaningful"""


def normal(c):
    if c.any() and abs(c.sum()) < 1e-3 * np.abs(c).max():
        raise Cancels()
    return c / c.sum() if c.any() else c


@st.composite
def strat_fit(draw, tier):
    diff = draw(bools(4))
    nf = draw(st.integers(1, 3))
    ws = draw(st.lists(worlds(values=draw(st.sampled_from([nonneg, nonneg, nonneg, nonpos, feature_values]))), min_size=1, max_size=3))
    return dict(worlds=ws, diff=diff, ts=draw(st.lists(st.tuples(raw, paths(st.lists(raw, max_size=5))).map(list), min_size=1, max_size=3)), which=draw(st.lists(raw, min_size=3, max_size=3)),
                ops=draw(st.lists(st.sampled_from(["fit", "more"]), max_size=2)) + ["more"], norm=draw(st.booleans()))


def counts(sas, F, t, norm, diff, stay=False):
    c = np.zeros(F.shape[0])
    u = np.zeros(F.shape[0])
    m = sas.shape[1]
    for a, b in zip(t, t[1:]):
        act = int(np.argmax(sas[a, :, b]))
        if not diff:
            c = c + sight(sas, F, a, act)[0]
        else:
            for x in range(m - 1 if stay else m):
                if x == act:
                    c = c + sight(sas, F, a, x)[0]
                else:
                    u = u + sight(sas, F, a, x)[0]
    if norm:
        c, u = normal(c), normal(u)
    return c - u


def check_fit(c, ctx):
    from maMDP.algorithms.irl import SimpleActionIRL, SimpleActionFeatureDiffIRL, get_trajectory_eyeline_features, get_trajectory_eyeline_features_diff
    ctx.touched = True
    nf = len(c["worlds"][0]["features"])
    ws = [w for w in c["worlds"] if len(w["features"]) == nf]
    mdps = [build_world(w) for w in ws]
    tabs = [expected_sas(w) for w in ws]
    Fs = [build_features(w["features"], t.shape[0]) for w, t in zip(ws, tabs)]
    s0 = [snap(m) for m in mdps]
    stay = [w["world"] != "table" and bool(w["selft"]) for w in ws]
    idx = [k % len(ws) for k in c["which"]][:len(c["ts"])]
    tr = [trajectories(tabs[i], [t])[0] for i, t in zip(idx, c["ts"])]
    # ambiguous moves (several actions with the same effect) could be attributed to any of them
    for i, t in zip(idx, tr):
        for a, b in zip(t, t[1:]):
            if tabs[i][a, :, b].sum() > 1:
                ctx.label("ambiguous move, not compared")
                return
    # one world, all its trajectories at once
    fn = get_trajectory_eyeline_features_diff if c["diff"] else get_trajectory_eyeline_features
    mine = [t for i, t in zip(idx, tr) if i == idx[0]]
    raw_counts = sum(counts(tabs[idx[0]], Fs[idx[0]], t, False, c["diff"], stay[idx[0]]) for t in mine)
    got = np.asarray(fn(mdps[idx[0]], [list(t) for t in mine], normalise=False), dtype=float)
    require(got.shape == (nf,) and np.allclose(got, raw_counts, atol=1e-9), "counts {0} over {1}, expected {2}", got.tolist(), mine, raw_counts.tolist())
    try:
        e = normal(raw_counts) if not c["diff"] else None
        per = sum(counts(tabs[i], Fs[i], t, True, c["diff"], stay[i]) for i, t in zip(idx, tr))
    except Cancels:
        ctx.label("positive and negative counts cancel, not normalised")
        return
    if not c["diff"]:
        got = np.asarray(fn(mdps[idx[0]], [list(t) for t in mine]), dtype=float)
        require(np.allclose(got, e, atol=1e-9), "normalised counts {0} over {1}, expected {2}", got.tolist(), mine, e.tolist())
    # the learner
    L = SimpleActionFeatureDiffIRL() if c["diff"] else SimpleActionIRL()
    theta = np.zeros(nf)
    first = True
    kept = []
    for op in c["ops"]:
        kw = {} if op == "fit" else dict(reset=False)
        theta = per.copy() if (op == "fit" or first) else theta + per
        first = False
        ret = L.fit([mdps[i] for i in idx], [list(t) for t in tr], **kw)
        got = np.array(ret, dtype=float, copy=True)
        for x, then in kept:
            require(np.array_equal(x, then), "weights returned earlier have changed from {0} to {1}", then.tolist(), np.asarray(x).tolist())
        kept.append((ret, got))
        require(got.shape == (nf,) and np.allclose(got, theta, atol=1e-9), "weights {0} after {1} of {2}, expected {3}", got.tolist(), op, tr, theta.tolist())
    for m, s in zip(mdps, s0):
        unchanged(m, s)
    ctx.nontrivial(any(len(t) > 2 for t in tr))
    ctx.label("comparing" if c["diff"] else "counting", "%d trajectories" % len(tr))


SUBS = [Sub("line_of_sight", lambda tier: strat_line(tier), check_line, 300, 5000, timeout=60), Sub("inference", lambda tier: strat_fit(tier), check_fit, 900, 8000, timeout=60)]
