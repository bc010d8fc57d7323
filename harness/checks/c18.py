from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are one world and a sequence of valid and invalid environment specifications over it, acting in between; non-trivial: "
        "at least two attempts of which at least one valid with an agent, or an invalid one followed by a valid one")
ASSUMPTIONS = ["each attempt uses new agents", "feature values consumed in an earlier environment stay consumed when the world is reused"]

BADS = ["short reward", "long reward", "2d reward", "float start", "string start", "none start", "start too big", "start far too big", "negative start", "consumes too big", "negative consumes",
        "scalar reward", "same name"]


@st.composite
def strat(draw, tier):
    if draw(bools(4)):
        w = draw(table_worlds(max_states=6, max_actions=3, dead=False))
    else:
        w = draw(grid_worlds(max_states=12, max_side=4))
    tries = []
    for _ in range(draw(st.integers(1, 5))):
        removals = draw(st.sampled_from([0, 0, 0, 1, 2]))
        k = draw(st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 0, 0]))
        A = draw(agent_specs(k, len(w["features"]), algorithms=("null", "null", "vi")))
        bad = None
        if k and draw(bools(5)):
            bad = [draw(st.sampled_from(BADS if k > 1 else BADS[:-1])), draw(st.integers(0, k - 1))]
        tries.append(dict(agents=A, bad=bad, removals=removals, acts=draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["step", "step", "set", "reset"]), raw).map(list), max_size=4))))
    return dict(w=w, tries=tries)


def spec_of(w, t, n):
    from maMDP.agents import Agent
    names = agent_names(len(t["agents"]))
    spec = {}
    for j, a in enumerate(t["agents"]):
        start, r, cons = int(a["start"] % n), list(a["reward"]), list(a["consumes"])
        if t["bad"] and t["bad"][1] == j:
            kind = t["bad"][0]
            if kind == "short reward":
                r = r[:-1]
            elif kind == "long reward":
                r = r + [0]
            elif kind == "2d reward":
                r = [r]
            elif kind == "scalar reward":
                r = 1.0
            elif kind == "float start":
                start = float(start)
            elif kind == "string start":
                start = "0"
            elif kind == "none start":
                start = None
            elif kind == "start too big":
                start = n
            elif kind == "start far too big":
                start = n + 17
            elif kind == "negative start":
                start = -1 - start
            elif kind == "consumes too big":
                cons = cons + [len(a["reward"])]
            elif kind == "negative consumes":
                cons = cons + [-1]
        if not a["as_list"] and not np.isscalar(r):
            r = np.array(r, dtype=float)
        nm = names[j]
        if t["bad"] and t["bad"][0] == "same name" and t["bad"][1] == j:
            nm = names[j - 1]
        spec[build_agent(nm, a)] = (start, r, cons)
    return names, spec


def check(c, ctx):
    from maMDP.environments import Environment
    w = c["w"]
    n = world_n_states(w)
    nf = len(w["features"])
    ctx.touched = True
    mdp = build_world(w)       # sees every attempt
    twin = build_world(w)      # sees only the valid ones
    own = build_features(w["features"], n)
    seen_bad = valid = 0
    for j, t in enumerate(c["tries"]):
        for _ in range(t["removals"]):      # taking the agents' indicators out by hand, even if there are none
            for m in (mdp, twin):
                m.remove_agent_features()
                require(np.array_equal(np.asarray(m.features), own) and m.n_features == nf, "removing the agents' features left {0}, expected {1}", np.asarray(m.features).tolist(), own.tolist())
            ctx.label("indicators removed" if valid else "nothing to remove")
        names, spec = spec_of(w, t, n)
        what = "attempt %d (%s)" % (j + 1, t["bad"][0] if t["bad"] else "valid, %d agents" % len(names))
        if t["bad"]:
            ctx.expect_error(lambda: Environment(mdp, spec), what)
            seen_bad += 1
            ctx.label(t["bad"][0], "at agent %d" % (t["bad"][1] + 1))
            continue
        env = Environment(mdp, spec)
        tenv = Environment(twin, spec_of(w, t, n)[1])
        k = len(names)
        exp = np.vstack([own] + [np.eye(n)[a["start"] % n][None] for a in t["agents"]])
        for e, m, nm in ((env, mdp, "the world"), (tenv, twin, "a world without the rejected attempts")):
            F = np.asarray(m.features)
            require(F.shape == exp.shape, "{0}: {1} has {2} features, expected {3} and {4} agents", what, nm, F.shape[0], nf, k)
            require(np.array_equal(F, exp), "{0}: features of {1} are {2}, expected {3}", what, nm, F.tolist(), exp.tolist())
            require(m.n_features == nf + k, "{0}: reports {1} features", what, m.n_features)
            require(list(e.agents.keys()) == names, "{0}: agents {1}", what, list(e.agents.keys()))
            for i, x in enumerate(names):
                require(int(e.agents[x].position) == t["agents"][i]["start"] % n, "{0}: {1} starts at {2}", what, x, e.agents[x].position)
                require(list(e.get_agent_position_history(x)) == [t["agents"][i]["start"] % n], "{0}: history of {1}", what, x)
                require(not np.any(e.agents[x].consumed), "{0}: {1} has consumed {2}", what, x, e.agents[x].consumed)
        valid += 1
        if seen_bad:
            ctx.nontrivial(k > 0)
            ctx.label("valid after invalid")
        ctx.nontrivial(j > 0 and k > 0)
        ctx.label("%d agents" % k)
        for i, op, arg in t["acts"]:
            if k == 0:
                break
            x = names[i % k]
            res = []
            for e, m in ((env, mdp), (tenv, twin)):
                seed_all(arg)
                if op == "step":
                    e.fit(x)
                    if np.asarray(m.sas)[e.agents[x].position].any():
                        e.step(x)
                elif op == "set":
                    e.set_agent_position(x, int(arg % n))
                else:
                    e.reset()
                res.append((np.array(m.features, copy=True), [int(e.agents[y].position) for y in names]))
            require(np.array_equal(res[0][0], res[1][0]) or t["agents"][i % k]["seed"] is not None or w["world"] == "table", "{0}: {1} of {2} behaves differently after rejected attempts", what, op, x)
            if not np.array_equal(res[0][0], res[1][0]):
                return      # separate random generators (a world or an agent with its own seed): the twins have diverged
            for i2, y in enumerate(names):
                require(res[0][0][nf + i2, res[0][1][i2]] == 1 or not res[0][0][nf + i2].any(), "{0}: indicator of {1} is not at its position", what, y)
        own = np.asarray(mdp.features)[:nf].copy()


def strat_agent(tier):
    return st.fixed_dictionaries(dict(what=st.sampled_from(["name", "algorithm_kwargs", "action_kwargs"]), value=st.one_of(st.none(), st.integers(-3, 3), st.lists(raw, max_size=2), st.floats(0, 1), st.booleans(), st.text(max_size=3))))


def check_agent(c, ctx):
    from maMDP.agents import Agent
    ctx.touched = True
    if c["what"] == "name" and isinstance(c["value"], str):
        require(Agent(c["value"]).name == c["value"], "an agent named {0!r} is called something else", c["value"])
        return
    ctx.nontrivial()
    ctx.label(c["what"])
    ctx.expect_error(lambda: Agent(c["value"]) if c["what"] == "name" else Agent("a", **{c["what"]: c["value"]}), "agent with %s=%r" % (c["what"], c["value"]))


SUBS = [Sub("agents", strat_agent, check_agent, 30, 200), Sub("specifications", lambda tier: strat(tier), check, 300, 4000)]
