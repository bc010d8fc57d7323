from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are transition tables with probe states/actions and draws; non-trivial: the table has a stochastic row with at least "
        "two successors which is actually sampled, or a malformed input is presented")
ASSUMPTIONS = ["rows sum to one or are empty (unavailable action)", "frequencies are judged by an exact binomial tail of 1e-11 per comparison"]


def tail(k, n, p):
    from scipy.stats import binom
    return min(binom.cdf(k, n, p), binom.sf(k - 1, n, p))


def strat(tier):
    return st.fixed_dictionaries(dict(t=table_worlds(max_states=7 if tier == "quick" else 12, max_actions=4), seeded=st.booleans(), seed=st.one_of(st.just(0), st.integers(0, 2 ** 31 - 1)),
                                      probes=st.lists(st.tuples(raw, raw).map(list), min_size=1, max_size=4), draws=st.sampled_from([40, 300]), budget=st.just(13000 if tier == "quick" else 150000)))


def check(c, ctx):
    from maMDP.mdp import MDP
    t = c["t"]
    n, m = t["n"], t["m"]
    sas = build_sas(t)
    F = build_features(t["features"], n)
    seed = c["seed"] if c["seeded"] else None
    ctx.touched = True
    arg = as_given(sas.copy(), t["how"])
    mdp = MDP(as_given(F.copy(), t["how"]), arg, seed=seed)
    twin = MDP(F.copy(), sas.copy(), seed=seed)
    require(mdp.n_states == n and mdp.n_actions == m and mdp.n_features == F.shape[0], "sizes reported wrongly")
    require(np.array_equal(mdp.features, F), "features differ from those supplied")
    require(np.array_equal(mdp.sas, sas), "transitions differ from those supplied")
    adj = (sas > 0).any(axis=1)
    require(np.array_equal(np.asarray(mdp.adjacency).astype(bool), adj), "the adjacency reported differs at {0}", np.argwhere(np.asarray(mdp.adjacency).astype(bool) != adj).tolist()[:5])
    for i in range(n):
        for j in range(n):
            require(bool(mdp.is_adjacent(i, j)) == bool(adj[i, j]), "states {0} and {1} reported adjacent: {2}; likeliest transition {3}", i, j, mdp.is_adjacent(i, j), sas[i, :, j].max())
    ctx.label("stochastic" if ((sas > 0) & (sas < 1)).any() else "deterministic", "seeded" if c["seeded"] else "unseeded")
    budget = c.get("budget", 13000)
    for p, q in c["probes"]:
        s, a = p % n, q % m
        row = sas[s, a]
        va = sorted(int(i) for i in mdp.state_valid_actions(s))
        require(va == [b for b in range(m) if sas[s, b].any()], "valid actions of {0}: {1}", s, va)
        if not row.any():
            ctx.label("unavailable")
            ctx.expect_error(lambda: mdp.get_next_state(s, a), "next state for an action without successors")
            continue
        stoch = (row > 0).sum() > 1
        ctx.nontrivial(stoch)
        k = c["draws"] if stoch else 5
        if stoch and row[row > 0].min() < 0.1 and budget > 0:      # enough draws to miss an unlikely successor
            k = max(k, min(budget, int(30 / row[row > 0].min())))
            budget -= k
            ctx.label("unlikely successor")
        got = [int(mdp.get_next_state(s, a)) for _ in range(k)]
        for g in got:
            require(0 <= g < n and row[g] > 0, "state {0} action {1} led to {2}, which has probability {3}", s, a, g, row[g] if 0 <= g < n else None)
        for nx in np.where(row > 0)[0]:
            cnt = got.count(int(nx))
            if row[nx] < 1 and tail(cnt, k, row[nx]) < 1e-11:
                fail("state {0} action {1}: successor {2} of probability {3} drawn {4} times of {5}", s, a, nx, row[nx], cnt, k)
        if c["seeded"]:
            again = [int(twin.get_next_state(s, a)) for _ in range(k)]
            require(got == again, "same seed, same calls, different successors")
    ctx.expect_error(lambda: mdp.get_next_state(0, -1), "negative action")
    ctx.expect_error(lambda: mdp.get_next_state(0, m), "action beyond the last")
    require(np.array_equal(arg, sas) and np.array_equal(mdp.sas, sas), "transition array modified by sampling")


BAD = ["sas list", "sas 2d", "sas 4d", "sas nonsquare", "sas negative", "sas above one", "feat list", "feat few", "feat many", "feat 1d",
       "walls long", "walls values", "walls 2d", "set feat few", "set feat list", "set sas negative", "set sas above", "set sas 2d", "sas nan", "set sas nan", "walls nan"]


def strat_bad(tier):
    return st.fixed_dictionaries(dict(t=table_worlds(max_states=6, max_actions=3, min_states=2), bad=st.sampled_from(BAD), at=raw, amount=st.sampled_from([0.001, 0.5, 3.0])))


def check_bad(c, ctx):
    from maMDP.mdp import MDP
    t = c["t"]
    n, m = t["n"], t["m"]
    sas = build_sas(t)
    F = build_features(t["features"], n)
    ctx.touched = True
    good = MDP(F.copy(), sas.copy())          # the unspoilt input is accepted
    ctx.nontrivial()
    ctx.label(c["bad"])
    b = c["bad"]
    neg, over = sas.copy(), sas.copy()
    i = c["at"] % sas.size
    neg.flat[i] = -c["amount"]
    over.flat[i] = 1 + c["amount"]
    one_wall = np.zeros(n)
    nan = sas.copy()
    nan.flat[i] = np.nan
    calls = {
        "sas list": lambda: MDP(F, sas.tolist()), "sas 2d": lambda: MDP(F, sas[0]), "sas 4d": lambda: MDP(F, sas[None]),
        "sas nonsquare": lambda: MDP(F, sas[:, :, :-1]), "sas negative": lambda: MDP(F, neg), "sas above one": lambda: MDP(F, over),
        "feat list": lambda: MDP(F.tolist(), sas), "feat few": lambda: MDP(F[:, :-1], sas),
        "feat many": lambda: MDP(np.hstack([F, F[:, :1]]), sas), "feat 1d": lambda: MDP(F[0], sas),
        "walls long": lambda: MDP(F, sas, walls=np.zeros(n + 1)), "walls values": lambda: MDP(F, sas, walls=one_wall + 2),
        "walls 2d": lambda: MDP(F, sas, walls=np.zeros((1, n))),
        "set feat few": lambda: setattr(good, "features", F[:, :-1]), "set feat list": lambda: setattr(good, "features", F.tolist()),
        "set sas negative": lambda: setattr(good, "sas", neg), "set sas above": lambda: setattr(good, "sas", over),
        "sas nan": lambda: MDP(F, nan), "set sas nan": lambda: setattr(good, "sas", nan), "walls nan": lambda: MDP(F, sas, walls=one_wall * np.nan),
        "set sas 2d": lambda: setattr(good, "sas", sas[0]),
    }
    ctx.expect_error(calls[b], "malformed input (%s)" % b)
    require(np.array_equal(good.sas, sas) and np.array_equal(good.features, F), "rejected input ({0}) changed an existing MDP", b)
    require(good.n_states == n and good.n_actions == m and good.n_features == F.shape[0], "rejected input ({0}) changed an existing MDP's sizes", b)


SUBS = [Sub("sampling", strat, check, 300, 3000), Sub("validation", strat_bad, check_bad, 200, 1500)]
