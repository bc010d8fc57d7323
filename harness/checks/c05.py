from core import *
from gens import *
from envmodel import *

RULE = ("cases are an environment (grid or custom MDP, walls, 1-4 agents) plus a history of calls; non-trivial: at least 3 successful "
        "moves by agents, at least 2 agents, and at least one repositioning, reset, refusal or re-plan in between; or more than 100 moves through more than one state")
ASSUMPTIONS = ["repositioning an agent is not recorded in its position history (as implemented; the history holds the start and the state after each step)",
               "an agent without any valid move may either raise or stay"]


@st.composite
def strat(draw, tier):
    c = draw(env_cases(tier))
    c["prefit"] = draw(bools(8))
    c["ops"] = draw(histories(len(c["agents"]), 3, 16 if tier == "quick" else 30, walls=True))
    return c


def check(c, ctx):
    d = Driver(c, ctx, {"move"})
    if c["prefit"]:
        for i in range(d.k):
            d.fit(i)
        d.verify("fitting")
    for op in c["ops"]:
        d.apply(op)
    kinds = {op[0] for op in c["ops"]}
    ctx.label(c["w"]["world"], "%d agents" % d.k, *["op " + k for k in kinds])
    ctx.nontrivial(d.steps >= 3 and d.k >= 2 and kinds & {"setpos", "reset", "fit", "badpos", "wall"})


@st.composite
def strat_march(draw, tier):
    w = draw(grid_worlds(max_states=6, max_side=4, min_states=2, n_feat=(1, 1), walls=False)) if draw(bools(6)) else \
        draw(table_worlds(max_states=4, max_actions=3, n_feat=(1, 1), min_states=2, dead=False))
    A = draw(agent_specs(draw(st.integers(1, 2)), 1, algorithms=("vi", "null")))
    return dict(w=w, agents=A, ops=draw(st.lists(st.tuples(st.sampled_from(["march", "march", "march", "reset"]), raw, st.sampled_from([100, 300, 600, 1100, 1300])).map(list), min_size=1, max_size=3)))


def check_march(c, ctx):
    """few states, many moves"""
    ctx.touched = True
    env, mdp, names = build_env(c["w"], c["agents"])
    n, k = world_n_states(c["w"]), len(names)
    starts = [a["start"] % n for a in c["agents"]]
    hist = [[s] for s in starts]
    for nm in names:
        env.fit(nm)
    sas = np.array(mdp.sas)
    most = 0
    for op, who, steps in c["ops"]:
        i = who % k
        if op == "reset":
            env.reset()
            hist = [[s] for s in starts]
            for nm in names:
                env.fit(nm)
        else:
            got = [int(x) for x in env.step_multi(names[i], n_steps=steps, stop_on_caught=False)]
            require(len(got) == steps, "{0} moves requested, {1} made", steps, len(got))
            for a, b in zip([hist[i][-1]] + got, got):
                require(sas[a, :, b].any(), "moved from {0} to {1}, which is not a transition", a, b)
            hist[i] = hist[i] + got
        for j, nm in enumerate(names):
            h = [int(x) for x in env.get_agent_position_history(nm)]
            require(h == hist[j], "after {0}: history of {1} has {2} entries ending in {3}, expected {4} ending in {5}", [op, steps], nm, len(h), h[-5:], len(hist[j]), hist[j][-5:])
            require(int(env.agents[nm].position) == hist[j][-1], "position of {0} is {1}, expected {2}", nm, env.agents[nm].position, hist[j][-1])
        most = max(most, max(len(h) for h in hist))
    ctx.label("%d00 moves or more" % (most // 100 // 5 * 5))
    ctx.nontrivial(most > 100 and len(set(hist[0])) > 1)


SUBS = [Sub("history", lambda tier: strat(tier), check, 350, 3500), Sub("march", lambda tier: strat_march(tier), check_march, 14, 100)]
