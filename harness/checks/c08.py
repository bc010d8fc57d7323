from core import *
from gens import *
import refs
import warnings
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are an MDP, reward weights and a discount; non-trivial: at least 3 states, rewards not all equal, and either an unavailable "
        "action, a dead end, a stochastic row or a negative reward is present")
ASSUMPTIONS = ["reward is received in the entered state (documented)", "the iteration limit suffices: it is set from discount, tolerance and reward scale",
               "accuracy demanded: the contraction bound 2*tol*discount/(1-discount) plus rounding"]

discounts = st.sampled_from([0.9, 0.5, 0.99, 0.1, 0.95, 0.01, 0.7])
big_weights = st.one_of(weights, st.sampled_from([100, -100, 1000.5, -1000, 1e-3, -1e-3]))
pads = st.sampled_from([0] * 12 + [70, 140])


@st.composite
def problems(draw, tier, stochastic=True, weight=big_weights, max_grid=36):
    if draw(bools(6)):
        w = draw(table_worlds(max_states=8 if tier == "quick" else 14, max_actions=5, stochastic=stochastic, n_feat=(1, 4)))
    else:
        w = draw(grid_worlds(max_states=max_grid if tier == "quick" else 70, max_side=8, n_feat=(1, 4)))
    r = [draw(weight) for _ in w["features"]]
    return dict(w=w, reward=r, pad=draw(pads), discount=draw(discounts), tol=draw(st.sampled_from([1e-8, 1e-8, 1e-6, 1e-10])), intreward=draw(st.booleans()))


def setup(c):
    w = c["w"]
    n = world_n_states(w)
    F = build_features(w["features"], n)
    if w["world"] == "table":
        sas = build_sas(w)
    else:
        sas = refs.grid_sas(w["world"], w["shape"], w["selft"], wall_array(w["walls"], n))
    if c.get("pad"):      # states without actions before all others: a large world of which only the last states matter
        pad = c["pad"]
        F = np.hstack([np.zeros((F.shape[0], pad)), F])
        big = np.zeros((n + pad, sas.shape[1], n + pad))
        big[pad:, :, pad:] = sas
        sas, n = big, n + pad
    r = np.array(c["reward"])
    if c.get("intreward"):
        r = np.array([int(x) for x in c["reward"]])
    else:
        r = r.astype(float)
    return n, F, sas, r


def enough_iterations(rmax, g, tol):
    import math
    return int(math.log(max(tol, 1e-300) / (2 * (rmax + 1) / (1 - g))) / math.log(g)) + 60


def interesting(sas, rs):
    avail = sas.sum(axis=2) > 0
    return sas.shape[0] >= 3 and len(np.unique(rs)) > 1 and (not avail.all() or ((sas > 0) & (sas < 1)).any() or (rs < 0).any())


def labels(ctx, sas, rs):
    avail = sas.sum(axis=2) > 0
    ctx.label("stochastic" if ((sas > 0) & (sas < 1)).any() else "deterministic", "dead end" if (~avail.any(axis=1)).any() else "no dead end",
              "unavailable actions" if not avail.all() else "all available",
              "all rewards negative" if (rs < 0).all() else ("some negative" if (rs < 0).any() else "non-negative"))


def compare(V, Q, Vr, Qr, sas, eps, what):
    V, Q = np.asarray(V), np.asarray(Q)
    require(V.shape == Vr.shape and Q.shape == Qr.shape, "{0}: shapes {1} {2}", what, V.shape, Q.shape)
    require(np.all(np.isfinite(V)), "{0}: values not finite", what)
    avail = sas.sum(axis=2) > 0
    d = np.abs(V - Vr)
    if d.max() > eps:
        s = int(d.argmax())
        fail("{0}: value of state {1} is {2}, optimal is {3}", what, s, V[s], Vr[s])
    require(np.all(np.isneginf(Q[~avail])), "{0}: an unavailable action has a value other than -inf", what)
    if avail.any():
        dq = np.where(avail, np.abs(np.where(avail, Q, 0) - np.where(avail, Qr, 0)), 0)
        if not np.all(np.isfinite(Q[avail])) or dq.max() > eps:
            s, a = (int(x) for x in np.unravel_index(np.argmax(np.where(np.isnan(dq), np.inf, dq)), dq.shape))
            fail("{0}: action value ({1},{2}) is {3}, expected {4}", what, s, a, Q[s, a], Qr[s, a])


def strat(tier):
    return problems(tier)


def check(c, ctx):
    from maMDP.algorithms.dynamic_programming import solve_value_iteration
    n, F, sas, r = setup(c)
    g, tol = c["discount"], c["tol"]
    rs = r.astype(float) @ F
    labels(ctx, sas, rs)
    ctx.nontrivial(interesting(sas, rs))
    Vr, Qr = refs.solve_optimal(sas, rs, g)
    F, sas = as_given(F, c["w"].get("how", 0)), as_given(sas, c["w"].get("how", 0))
    F1, s1, r1 = F.copy(), sas.copy(), r.copy()
    ctx.touched = True
    V, Q = solve_value_iteration(r, F, enough_iterations(np.abs(rs).max(), g, tol), g, sas, tol)
    scale = 1 + np.abs(Vr).max()
    eps = 2 * tol / (1 - g) + 1e-9 * scale
    compare(V, Q, Vr, Qr, sas, eps, "solve_value_iteration")
    require(np.array_equal(F, F1) and np.array_equal(sas, s1) and np.array_equal(r, r1), "solver modified its inputs")
    # acting greedily on the returned action values is optimal
    avail = sas.sum(axis=2) > 0
    P, R = np.zeros((n, n)), np.zeros(n)
    for s in range(n):
        if avail[s].any():
            a = int(np.argmax(np.asarray(Q)[s]))
            require(avail[s, a], "greedy action of state {0} is unavailable", s)
            P[s], R[s] = sas[s, a], sas[s, a] @ rs
    Vp = np.linalg.solve(np.eye(n) - g * P, R)
    require(np.all(Vp >= Vr - 4 * eps / (1 - g) - 1e-7 * scale), "greedy policy is not optimal")


def strat_env(tier):
    @st.composite
    def s(draw):
        c = draw(problems(tier, max_grid=20, weight=weights))
        k = draw(upto(1, 3, 5))
        c["extra"] = [draw(weights) for _ in range(k)]
        c["starts"] = [draw(raw) for _ in range(k)]
        c["which"] = draw(st.integers(0, k - 1))
        c["default"] = draw(st.booleans())
        c["earlier"] = draw(st.sampled_from([None, None, "one pass", "coarse", "other discount", "soft"]))
        return c
    return s()


def check_env(c, ctx):
    """The planner used by agents: action values for the agent's reward over world features and agents' positions."""
    from maMDP.environments import Environment
    from maMDP.agents import Agent
    from maMDP.algorithms.dynamic_programming import ValueIteration
    n, F, sas, r = setup(dict(c, intreward=False, pad=0))
    k = len(c["extra"])
    g = 0.9 if c["default"] else c["discount"]
    ctx.touched = True
    mdp = build_world(c["w"])
    names = agent_names(k)
    full = np.concatenate([r, np.array(c["extra"], dtype=float)])
    spec = {}
    starts = [s % n for s in c["starts"]]
    for i in range(k):
        kw = {} if c["default"] else dict(discount=g, tol=c["tol"], max_iter=enough_iterations(np.abs(full).sum() * max(1, np.abs(F).max()), g, c["tol"]))
        spec[Agent(names[i], algorithm=ValueIteration, algorithm_kwargs=kw)] = (starts[i], full if i == c["which"] else np.zeros(len(full)), [])
    env = Environment(mdp, spec)
    FF = np.vstack([F] + [np.eye(n)[s] for s in starts])
    rs = full @ FF
    labels(ctx, sas, rs)
    ctx.nontrivial(interesting(sas, rs))
    Vr, Qr = refs.solve_optimal(sas, rs, g)
    nm = names[c["which"]]
    other = {"one pass": dict(max_iter=1, discount=g), "coarse": dict(tol=10.0, discount=g), "other discount": dict(discount=0.3), "soft": dict(discount=g)}.get(c.get("earlier"))
    if other:      # another planner's solution of the same problem must not be taken for this one's
        ctx.label("earlier: " + c["earlier"])
        rw = np.array(env.agents[nm].reward_function, dtype=float)
        if c["earlier"] == "soft":
            from maMDP.algorithms.dynamic_programming import solve_value_iteration
            solve_value_iteration(rw, mdp.features, 50, g, mdp.sas, 1e-4, True)
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ValueIteration(**other).fit(mdp, rw, int(env.agents[nm].position))
    env.fit(nm)
    tol = 1e-8 if c["default"] else c["tol"]
    eps = 2 * tol / (1 - g) + 1e-9 * (1 + np.abs(Vr).max())
    compare(env.agents[nm].algorithm.values, env.get_agent_q_values(nm), Vr, Qr, sas, eps, "planning for agent %d of %d" % (c["which"] + 1, k))


def strat_all(tier):
    return st.fixed_dictionaries(dict(w=st.one_of(grid_worlds(max_states=9, max_side=4, n_feat=(2, 3)), table_worlds(max_states=5, max_actions=3, n_feat=(2, 3))),
                                      reward=st.lists(weights, min_size=6, max_size=6), prey=raw, discount=st.sampled_from([0.9, 0.5, 0.8])))


def check_all(c, ctx):
    from maMDP.algorithms.mcts import solve_all_value_iteration
    n, F, sas, _ = setup(dict(c, reward=c["reward"][:len(c["w"]["features"])]))
    r = np.array(c["reward"][:F.shape[0]], dtype=float)
    prey = c["prey"] % F.shape[0]
    F1 = F.copy()
    ctx.touched = True
    Q = np.asarray(solve_all_value_iteration(sas, r, F, prey, 500, 1e-8, c["discount"]))
    require(Q.shape == (n, n, sas.shape[1]), "shape {0}", Q.shape)
    require(np.array_equal(F, F1), "the caller's feature array was modified")
    ctx.nontrivial(n >= 3 and r[prey] != 0)
    for p in range(n):
        G = F1.copy()
        G[prey] = 0
        G[prey, p] = 1
        Vr, Qr = refs.solve_optimal(sas, r @ G, c["discount"])
        compare(Vr, Q[p], Vr, Qr, sas, 1e-6 * (1 + np.abs(Vr).max()), "prey at %d" % p)


def strat_disc(tier):
    return st.fixed_dictionaries(dict(w=table_worlds(max_states=4, max_actions=2), discount=st.sampled_from([0.0, 1.0, -0.5, 1.5, -1e-9, 1 + 1e-9, 2.0]), agent=st.booleans()))


def check_disc(c, ctx):
    from maMDP.algorithms.dynamic_programming import solve_value_iteration, ValueIteration
    w = c["w"]
    F = build_features(w["features"], w["n"])
    ctx.touched = True
    ctx.nontrivial()
    if c["agent"]:
        mdp = build_world(w)
        ctx.expect_error(lambda: ValueIteration(discount=c["discount"]).fit(mdp, np.ones(F.shape[0]), 0), "discount %s" % c["discount"])
    else:
        ctx.expect_error(lambda: solve_value_iteration(np.ones(F.shape[0]), F, 10, c["discount"], build_sas(w), 1e-6), "discount %s" % c["discount"])


SUBS = [Sub("optimality", strat, check, 450, 5000), Sub("agent_planning", strat_env, check_env, 200, 2000),
        Sub("every_prey_position", strat_all, check_all, 60, 500), Sub("discount_rejected", strat_disc, check_disc, 30, 100)]
