from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are an environment, a fitted agent and start distributions chained over several steps; non-trivial: at least two occupied states "
        "or a branching policy or transition on the way")
ASSUMPTIONS = ["start distributions are non-negative, given as numpy arrays and not all zero",
               "a state whose available actions are unknown contributes nothing checkable, so sums are only judged when every occupied state has an available action"]


@st.composite
def strat(draw, tier):
    if draw(bools(4)):
        w = draw(table_worlds(max_states=7, max_actions=4, stochastic=True))
    else:
        w = draw(grid_worlds(max_states=20, max_side=6))
    k = draw(upto(1, 2, 5))
    A = draw(agent_specs(k, len(w["features"]), selectors=("max", "softmax", "softmax"), algorithms=("vi", "vi", "null"),
                         weight=draw(st.sampled_from([weights, st.sampled_from([0, 0, 1]), st.just(0)]))))
    mass = st.lists(st.tuples(raw, st.one_of(st.integers(1, 5), st.sampled_from([0.25, 0.1, 1e-3, 7.5]))).map(list), min_size=1, max_size=6)
    starts = draw(st.lists(st.one_of(st.none(), mass, mass), min_size=1, max_size=3))
    return dict(w=w, agents=A, who=draw(st.integers(0, k - 1)), starts=starts, chain=draw(st.integers(1, 5)), mode=draw(st.sampled_from(["raw", "unit", "int"])),
                scale=draw(st.sampled_from([1, 2, 10, 0.1, 100])), moves=draw(st.integers(0, 2)), placed=draw(st.one_of(st.none(), raw)), others=draw(st.one_of(st.none(), raw)))


def check(c, ctx):
    w = c["w"]
    n = world_n_states(w)
    ctx.touched = True
    env, mdp, names = build_env(w, c["agents"])
    i = c["who"]
    nm = names[i]
    sp = c["agents"][i]
    ctx.expect_error(lambda: env.step_proba(nm), "probabilistic step of an agent that was never fitted")
    for x in names:
        env.fit(x)
    sas = np.asarray(mdp.sas).copy()
    q = np.array(env.get_agent_q_values(nm), dtype=float, copy=True)
    ref = refs.policy_rows(q, sp["selector"], sp.get("temperature", 1))
    avail = sas.sum(axis=2) > 0
    K = np.zeros((n, n))
    known = np.zeros(n, dtype=bool)
    for s in range(n):
        if ref[s] is not None and not np.isnan(ref[s]).any() and avail[s].any():
            known[s] = True
            K[s] = ref[s] @ sas[s]
    for _ in range(c["moves"]):
        if known[env.agents[nm].position]:
            env.step(nm)
    if c["placed"] is not None:
        env.set_agent_position(nm, c["placed"] % n)
        ctx.label("repositioned")
    if c["others"] is not None:
        for x in names:
            if x != nm:
                env.set_agent_position(x, c["others"] % n)
    walls = None if w["world"] == "table" else np.asarray(mdp.walls)

    def snap():
        return (np.array(mdp.features, copy=True), [int(env.agents[x].position) for x in names], [list(env.get_agent_position_history(x)) for x in names],
                [np.array(env.agents[x].consumed, copy=True) for x in names])

    def same(a, b):
        return np.array_equal(a[0], b[0]) and a[1] == b[1] and a[2] == b[2] and all(np.array_equal(x, y) for x, y in zip(a[3], b[3]))

    for start in c["starts"]:
        if start is None:
            arg = None
            cur = np.zeros(n)
            cur[env.agents[nm].position] = 1
        else:
            arg = np.zeros(n)
            for s, v in start:
                arg[s % n] += v
            if c["mode"] == "unit":
                arg = arg / arg.sum()
            elif c["mode"] == "int":
                arg = np.ceil(arg).astype(int)
            cur = arg / arg.sum()
        for t in range(c["chain"]):
            stuck = not known[cur > 0].all()
            if stuck:
                ctx.label("stuck")
            before, keep = snap(), None if arg is None else arg.copy()
            out = np.asarray(env.step_proba(nm) if arg is None else env.step_proba(nm, arg))
            what = "step %d from %s" % (t + 1, "the current state" if start is None else "a distribution")
            require(same(before, snap()), "{0}: the world or the agents changed", what)
            require(keep is None or np.array_equal(keep, arg), "{0}: the caller's distribution was modified", what)
            exp = cur @ K
            require(out.shape == (n,), "{0}: shape {1}", what, out.shape)
            require(np.all(np.isfinite(out)) and np.all(out >= 0), "{0}: {1} is not a distribution", what, out.tolist())
            if not np.allclose(out, exp, rtol=1e-9, atol=1e-10):
                s = int(np.argmax(np.abs(out - exp)))
                fail("{0}: probability of state {1} is {2}, expected {3}", what, s, out[s], exp[s])
            require(stuck or abs(out.sum() - 1) < 1e-9, "{0}: probabilities sum to {1}", what, out.sum())
            if walls is not None:
                require(not out[walls > 0].any(), "{0}: a walled state has positive probability", what)
            if arg is not None:
                sc = np.asarray(env.step_proba(nm, arg * c["scale"]))
                require(np.allclose(sc, out, rtol=1e-9, atol=1e-10), "{0}: rescaling the input by {1} changes the result", what, c["scale"])
            ctx.nontrivial((cur > 0).sum() > 1 or (exp > 0).sum() > 1)
            if (cur > 0).sum() > 1 and ((cur[:, None] * K > 0).sum(axis=0) > 1).any():
                ctx.label("several states lead to the same one")
            if exp.sum() < 1e-6:
                break
            cur, arg = exp / exp.sum(), out
    ctx.label(sp["selector"], "stochastic" if ((sas > 0) & (sas < 1)).any() else "deterministic")


def strat_bad(tier):
    return st.fixed_dictionaries(dict(w=grid_worlds(max_states=12, max_side=4), d=st.sampled_from([-1, 1, 3]), start=raw))


def check_bad(c, ctx):
    n = world_n_states(c["w"])
    ctx.touched = True
    a = dict(start=c["start"], reward=[1] * len(c["w"]["features"]) + [0], consumes=[], n_moves=1, selector="max", algorithm="null", seed=None)
    env, mdp, names = build_env(c["w"], [a])
    env.fit(names[0])
    ctx.nontrivial()
    if n + c["d"] < 1:
        return
    ctx.expect_error(lambda: env.step_proba(names[0], np.ones(n + c["d"])), "distribution over %d of %d states" % (n + c["d"], n))


SUBS = [Sub("propagation", lambda tier: strat(tier), check, 400, 5000), Sub("wrong_length", strat_bad, check_bad, 20, 100)]
