from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st
from checks.c21 import expected_sas

RULE = ("cases are a deterministic transition array, reward weights, features and a discount; non-trivial: at least two states, one of them with an "
        "available and one with an unavailable action or several actions, and a discount above 0.1")
ASSUMPTIONS = ["deterministic transitions (the successor representation is only derived for those)"]


@st.composite
def strat(draw, tier):
    w = draw(st.one_of(grid_worlds(max_states=12, max_side=5), table_worlds(max_states=6, max_actions=4, stochastic=False)))
    g = draw(st.one_of(st.sampled_from([0.95, 0.9, 0.5, 0.99, 0.1]), st.floats(0.01, 0.97)))
    nf = len(w["features"])
    return dict(w=w, gamma=g, theta=draw(st.lists(weights, min_size=nf, max_size=nf)), default=draw(bools(2)))


def check(c, ctx):
    from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values
    ctx.touched = True
    mdp = build_world(c["w"])
    sas = expected_sas(c["w"])
    n, m, _ = sas.shape
    F = build_features(c["w"]["features"], n)
    g = 0.95 if c["default"] else c["gamma"]
    given = np.array(mdp.sas)
    how = c["w"].get("how", 0)
    g_before = given.copy()
    sr = np.asarray(get_sa_sr(given) if c["default"] else get_sa_sr(given, g))
    require(np.array_equal(given, g_before), "the transitions given were changed")
    require(sr.shape == (n * m, n * m), "successor representation of shape {0}, expected {1}", sr.shape, (n * m, n * m))
    # expected discounted number of visits, by summing the visit distributions step by step
    nxt = np.where(sas.any(-1), sas.argmax(-1), -1)
    P = np.zeros((n, n))       # one step of the uniformly random policy; what takes an unavailable action ends there
    for s in range(n):
        for a in range(m):
            if nxt[s, a] >= 0:
                P[s, nxt[s, a]] += 1 / m
    visits, power = np.eye(n), g * P          # sum of the first 2^k discounted powers, by doubling
    for _ in range(13):
        visits = visits + power @ visits
        power = power @ power
    ref = np.eye(n * m)
    for s in range(n):
        for a in range(m):
            if nxt[s, a] >= 0:
                ref[s * m + a] += np.repeat(g * visits[nxt[s, a]] / m, m)
    tol = 1e-6 / (1 - g)
    require(np.isfinite(sr).all() and np.abs(sr - ref).max() <= tol, "successor representation differs from expected discounted visits by {0} at {1}", np.abs(sr - ref).max(),
            np.unravel_index(np.nanargmax(np.abs(sr - ref)), sr.shape))
    th = np.array(c["theta"], dtype=float)
    r = th @ F
    th, F = as_given(th, how), as_given(F, how)
    keep = (th.copy(), F.copy(), sr.copy(), given.copy())
    q = np.asarray(get_sr_q_values(th, F, sr, given, n, m))
    for x, y in zip(keep, (th, F, sr, given)):
        require(np.array_equal(x, y), "an argument of get_sr_q_values was changed")
    require(q.shape == (n, m), "action values of shape {0}", q.shape)
    for s in range(n):
        for a in range(m):
            if not sas[s, a].any():
                require(q[s, a] == -np.inf, "action {0} is unavailable in state {1} but has value {2}", a, s, q[s, a])
            else:
                e = float((ref[s * m + a].reshape(n, m).sum(axis=1) * r).sum())
                require(np.isfinite(q[s, a]) and abs(q[s, a] - e) <= tol * (1 + np.abs(r).sum()) * m, "value of action {0} in state {1} is {2}, expected {3}", a, s, q[s, a], e)
    av = sas.any(-1)
    ctx.nontrivial(n > 1 and av.any() and (m > 1 or not av.all()) and g > 0.1)
    ctx.label(c["w"]["world"], "some unavailable" if not av.all() else "all available")


SUBS = [Sub("visits_and_values", lambda tier: strat(tier), check, 200, 3000)]
