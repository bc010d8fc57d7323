from core import *
from gens import *
from envmodel import *

RULE = ("cases are an environment plus several segments of calls, each followed by a reset; non-trivial: some segment moved an agent "
        "and consumed a feature before its reset")
ASSUMPTIONS = ["the step counter of the environment is not part of the restored state (not documented)"]


@st.composite
def strat(draw, tier):
    c = draw(env_cases(tier, algorithms=("vi", "vi", "vi", "null", "mcts"), max_states=20, values=st.sampled_from([1, 1, 1, 0.5, 2, -1])))
    n = draw(st.integers(1, 3))
    c["segments"] = [draw(histories(len(c["agents"]), 2, 9, walls=True, bad=False)) for _ in range(n)]
    c["twice"] = draw(st.booleans())
    c["before_any"] = draw(st.booleans())
    c["refits"] = draw(bools(6))
    return c


def compare(d, c, ctx, what, with_fit):
    """everything observable equals a freshly built identical environment"""
    env, m = d.env, d.model
    fresh, fmdp, _ = build_env(c["w"], c["agents"])
    if c["w"]["world"] != "table":
        fmdp.walls = np.asarray(d.mdp.walls).copy()
    require(np.array_equal(np.asarray(d.mdp.features), np.asarray(fmdp.features)), "{0}: features differ from the starting ones at {1}", what,
            np.argwhere(np.asarray(d.mdp.features) != np.asarray(fmdp.features)).tolist()[:5] if np.asarray(d.mdp.features).shape == np.asarray(fmdp.features).shape else "shape")
    for i, nm in enumerate(d.names):
        a, b = env.agents[nm], fresh.agents[nm]
        start = c["agents"][i]["start"] % d.n
        require(int(a.position) == start, "{0}: {1} is at {2}, started at {3}", what, nm, a.position, start)
        h = [int(x) for x in env.get_agent_position_history(nm)]
        require(h == [start], "{0}: history of {1} is {2}", what, nm, h)
        require(not np.any(np.asarray(a.consumed)), "{0}: consumption counts of {1} are {2}", what, nm, np.asarray(a.consumed).tolist())
        require(np.array_equal(a.reward_function, b.reward_function) and list(a.consumes) == list(b.consumes), "{0}: settings of {1} changed", what, nm)
    require(np.array_equal(np.asarray(d.mdp.sas), np.asarray(fmdp.sas)), "{0}: transitions changed by reset", what)
    if with_fit:
        for i, nm in enumerate(d.names):
            if c["agents"][i]["algorithm"] == "mcts" and not d.can_search(i):
                continue
            seed_all(12345 + i)
            env.fit(nm)
            d.fitted[i] = True
            seed_all(12345 + i)
            fresh.fit(nm)
            qa, qb = np.asarray(env.get_agent_q_values(nm)), np.asarray(fresh.get_agent_q_values(nm))
            require(qa.shape == qb.shape and np.allclose(qa, qb, rtol=1e-7, atol=1e-7, equal_nan=True), "{0}: planning for {1} after the reset differs from a fresh environment", what, nm)


def check(c, ctx):
    d = Driver(c, ctx, set())
    if c["before_any"]:
        d.env.reset()
        compare(d, c, ctx, "reset of a new environment", False)
    for i in range(d.k):
        d.fit(i)
    seen = False
    for j, seg in enumerate(c["segments"]):
        walls = None if c["w"]["world"] == "table" else np.asarray(d.mdp.walls).copy()
        e0, s0 = d.model.events, d.steps
        for op in seg:
            d.apply(op)
        seen |= d.model.events > e0 and d.steps > s0
        walls = None if walls is None else np.asarray(d.mdp.walls).copy()
        d.env.reset()
        d.model.reset()
        if walls is not None:
            require(np.array_equal(np.asarray(d.mdp.walls), walls), "walls changed by reset")
        if c["twice"]:
            d.env.reset()
        compare(d, c, ctx, "reset %d" % (j + 1), c["refits"])
    ctx.label("%d segments" % len(c["segments"]), "consumed before reset" if seen else "nothing consumed", "%d agents" % d.k)
    ctx.nontrivial(seen)


SUBS = [Sub("segments", lambda tier: strat(tier), check, 250, 2500)]
