from core import *
from gens import *
import hashlib, json, os, tempfile
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are a hexagonal environment, a short history of moves and feature names; non-trivial: at least one agent, one feature present "
        "and either a wall, a fractional weight or a move made")
ASSUMPTIONS = ["feature names are distinct strings; features are 0/1", "planners with a documented saved form only: value iteration",
               "keyword settings are JSON values", "action values are compared when no agent's indicator has been consumed (the saved form records positions)"]

names_st = st.one_of(st.sampled_from(["food", "tree", "Feature_0", "1", "10", "2", "b", "a", "naïve ✓", "with space", " a", "a ", "walls", "agents", ""]), st.text(max_size=6))


@st.composite
def strat(draw, tier):
    w = draw(grid_worlds(max_states=20, max_side=6, kinds=("hex",), values=st.sampled_from([1, 1, 1, 0]), n_feat=(1, 4)))
    k = draw(st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 5, 0]))
    A = draw(agent_specs(k, len(w["features"]), algorithms=("vi",), weight=st.one_of(weights, st.sampled_from([0.3, -0.7, 1e-3, 2.25, 1 / 3]))))
    ks = draw(st.permutations(["alice", "Bob", "zed", "agent 4", "agents"])) if draw(bools(7)) else draw(st.lists(names_st, min_size=k, max_size=k, unique=True))
    fn = draw(st.lists(names_st, min_size=len(w["features"]), max_size=len(w["features"]), unique=True))
    return dict(w=w, agents=A, names=list(ks)[:k], fnames=fn, default_names=draw(bools(2)), ops=draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["step", "step", "set"]), raw).map(list), max_size=5)),
                numpy=draw(bools(2)), way=draw(st.sampled_from(["dict", "dict named", "json", "file", "twice"])), settings=draw(st.booleans()), play=draw(st.lists(st.integers(0, 2), min_size=1, max_size=6)))


def hash_of(x, salt):
    return hashlib.sha1(repr((x, salt)).encode()).digest()


def build(c):
    A = c["agents"]
    objs = [build_agent(c["names"][i], a, dict(max_iter=400) if c["settings"] else None) for i, a in enumerate(A)]
    if c.get("numpy"):          # numbers as they come out of numpy arrays
        A = [dict(a, consumes=list(np.array(a["consumes"], dtype=int))) for a in A]
    env, mdp, names = build_env(c["w"], A, names=c["names"], agent_objs=objs)
    return env, mdp, objs


def compare(env, copy, c, what):
    a, b = env.mdp, copy.mdp
    k, nf = len(c["names"]), len(c["w"]["features"])
    require(type(b).__name__ == "HexGridMDP" and tuple(b.shape) == tuple(a.shape), "{0}: size {1}, expected {2}", what, b.shape, a.shape)
    require(bool(b.self_transitions) == bool(a.self_transitions), "{0}: self-transitions {1}", what, b.self_transitions)
    Fa, Fb = np.asarray(a.features), np.asarray(b.features)
    require(Fb.shape == Fa.shape, "{0}: feature array of shape {1}, expected {2}", what, Fb.shape, Fa.shape)
    require(np.array_equal(Fb[:nf], Fa[:nf]), "{0}: features differ at {1}", what, np.argwhere(Fb[:nf] != Fa[:nf]).tolist()[:6])
    require(np.array_equal(np.asarray(a.walls), np.asarray(b.walls)), "{0}: walls {1}, expected {2}", what, np.where(b.walls)[0].tolist(), np.where(a.walls)[0].tolist())
    require(np.array_equal(np.asarray(a.sas), np.asarray(b.sas)), "{0}: transitions differ", what)
    require(list(copy.agents.keys()) == c["names"], "{0}: agents {1}, expected {2}", what, list(copy.agents.keys()), c["names"])
    for i, x in enumerate(c["names"]):
        p, q = env.agents[x], copy.agents[x]
        require(int(p.position) == int(q.position), "{0}: {1} is at {2}, expected {3}", what, x, q.position, p.position)
        require(Fb[nf + i, int(p.position)] == 1 and Fb[nf + i].sum() == 1, "{0}: indicator of {1} is not at its position", what, x)
        require(p.n_moves == q.n_moves, "{0}: {1} has {2} moves per turn, expected {3}", what, x, q.n_moves, p.n_moves)
        require(np.array_equal(np.asarray(p.reward_function, dtype=float), np.asarray(q.reward_function, dtype=float)), "{0}: reward weights of {1} are {2}, expected {3}",
                what, x, list(q.reward_function), list(p.reward_function))
        require(sorted(p.consumes) == sorted(q.consumes), "{0}: {1} consumes {2}, expected {3}", what, x, q.consumes, p.consumes)
        require(type(p.algorithm) is type(q.algorithm), "{0}: planner of {1} is {2}", what, x, type(q.algorithm).__name__)
        require(type(p.action_selector) is type(q.action_selector), "{0}: action rule of {1} is {2}", what, x, type(q.action_selector).__name__)
        for att in ("discount", "max_iter", "tol"):
            require(getattr(p.algorithm, att, None) == getattr(q.algorithm, att, None), "{0}: {1} of {2}'s planner is {3}, expected {4}", what, att, x, getattr(q.algorithm, att, None), getattr(p.algorithm, att, None))
        require(getattr(p.action_selector, "temperature", None) == getattr(q.action_selector, "temperature", None), "{0}: temperature of {1} is {2}", what, x, getattr(q.action_selector, "temperature", None))
    if np.array_equal(Fa, Fb):
        for x in c["names"]:
            env.fit(x)
            copy.fit(x)
            require(np.allclose(env.get_agent_q_values(x), copy.get_agent_q_values(x), rtol=1e-9, atol=1e-9), "{0}: planning for {1} differs in the copy", what, x)
            np.random.seed(7)
            p = np.asarray(env.get_agent_pi_p(x))
            require(np.allclose(p, copy.get_agent_pi_p(x), equal_nan=True), "{0}: policy of {1} differs in the copy", what, x)


def play(env, names, plan):
    """positions of all agents over a few fitted moves, from given generator states"""
    seed_all(11)
    out = []
    for i in plan:
        x = names[i % len(names)]
        env.fit(x)
        if np.asarray(env.mdp.sas)[env.agents[x].position].any():
            env.step(x)
        out.append([int(env.agents[y].position) for y in names])
    return out


def compare_play(env_now, copy, c, what):
    """the copy plays exactly like an environment made from scratch in the saved situation"""
    nf = len(c["w"]["features"])
    starts, own = env_now
    A = [dict(a, start=s) for a, s in zip(c["agents"], starts)]
    objs = [build_agent(x, a, dict(max_iter=400) if c["settings"] else None) for x, a in zip(c["names"], A)]
    fresh = build_env(c["w"], A, mdp=build_grid(c["w"], features=own), names=c["names"], agent_objs=objs)[0]
    a, b = play(fresh, c["names"], c["play"]), play(copy, c["names"], c["play"])
    require(a == b, "{0}: the copy plays {1}, the environment made directly plays {2}", what, b, a)


def check(c, ctx):
    from maMDP.env_io import hex_env_to_dict, hex_env_to_json, hex_environment_from_dict, hex_environment_from_json
    ctx.touched = True
    env, mdp, objs = build(c)
    n = mdp.n_states
    k, nf = len(c["names"]), len(c["w"]["features"])
    moved = 0
    for i, op, arg in c["ops"]:
        if not k:
            break
        x = c["names"][i % k]
        if op == "set":
            env.set_agent_position(x, np.arange(n)[arg % n] if arg % 3 == 0 else int(arg % n))
        elif np.asarray(mdp.sas)[env.agents[x].position].any():
            env.fit(x)
            env.step(x)
            moved += 1
    before = np.array(mdp.features, copy=True)
    way = c["way"]
    fn = list(c["fnames"])
    if way in ("dict", "dict named", "twice"):
        d = hex_env_to_dict(env) if c["default_names"] else hex_env_to_dict(env, fn)
        json.dumps(d)                                   # plain data
        shuffled = {x: d["features"][x] for x in sorted(d["features"], key=lambda x: hash_of(x, c["fnames"]))}
        given = list(d["features"].keys())
        load = lambda: hex_environment_from_dict(dict(d, features=shuffled), feature_names=list(given)) if way == "dict named" else hex_environment_from_dict(d)
        if not c["default_names"]:
            require(sorted(d["features"].keys()) == sorted(fn), "feature names {0}, expected {1}", list(d["features"]), fn)
        if way == "twice":
            d2 = hex_env_to_dict(load(), list(d["features"].keys()))
            load = lambda: hex_environment_from_dict(d2)
    elif way == "json":
        text = hex_env_to_json(env, fn, return_string=True)
        load = lambda: hex_environment_from_json(text)
    else:
        fd, path = tempfile.mkstemp(dir=os.environ.get("VERIF_SCRATCH"))
        os.close(fd)
        try:
            hex_env_to_json(env, fn, fname=path)
            with open(path) as f:
                saved = f.read()
            load = lambda: hex_environment_from_json(saved)
        finally:
            os.remove(path)
    require(np.array_equal(before, np.asarray(mdp.features)), "saving changed the environment")
    compare(env, load(), c, way)
    # the form with coordinates
    di = hex_env_to_dict(env, fn, format="index")
    dc = hex_env_to_dict(env, fn, format="coords")
    h = mdp.shape[1]

    def states(coords):
        return sorted(int(x) * h + int(y) for x, y in coords)
    for f in range(nf):
        require(states(dc["features"][fn[f]]) == sorted(di["features"][fn[f]]) == np.where(before[f])[0].tolist(), "feature {0}: indices {1}, coordinates {2}, present in {3}",
                fn[f], di["features"][fn[f]], dc["features"][fn[f]], np.where(before[f])[0].tolist())
    require(states(dc["walls"]) == sorted(di["walls"]) == np.where(np.asarray(mdp.walls))[0].tolist(), "walls: indices {0}, coordinates {1}", di["walls"], dc["walls"])
    for i, x in enumerate(c["names"]):
        pc = np.array(dc["agents"][i][x]["position"]).reshape(-1, 2)
        require(states(pc) == [int(env.agents[x].position)] == [int(di["agents"][i][x]["position"])], "{0} at {1}: index {2}, coordinates {3}", x, env.agents[x].position,
                di["agents"][i][x]["position"], pc.tolist())
    if k:
        compare_play(([int(env.agents[x].position) for x in c["names"]], before[:nf].copy()), load(), c, way)
    frac = any(float(v) != int(v) for a in c["agents"] for v in a["reward"])
    ctx.nontrivial(k > 0 and before[:nf].any() and (np.asarray(mdp.walls).any() or frac or moved))
    ctx.label(way, "moved" if moved else "not moved", "fractional weights" if frac else "whole weights", "%d agents" % k)


def strat_bad(tier):
    return st.fixed_dictionaries(dict(w=grid_worlds(max_states=9, max_side=3, kinds=("hex",), n_feat=(2, 4)), d=st.sampled_from([-1, 1, 2, 0]), json=st.booleans(), at=raw))


def check_bad(c, ctx):
    from maMDP.env_io import hex_env_to_dict, hex_env_to_json
    nf = len(c["w"]["features"])
    ctx.touched = True
    ctx.nontrivial()
    a = dict(start=0, reward=[0.5] * (nf + 1), consumes=[], n_moves=1, selector="max", algorithm="vi", seed=None)
    env, mdp, _ = build_env(c["w"], [a])
    names = ["f%d" % i for i in range(nf + c["d"])]
    if c["d"] == 0:                    # the right number, but one twice
        if nf < 2:
            return
        names[c["at"] % nf] = names[c["at"] % nf - 1]
    ctx.expect_error(lambda: hex_env_to_json(env, names, return_string=True) if c["json"] else hex_env_to_dict(env, names), "names %s for %d features" % (names, nf))


SUBS = [Sub("round_trip", lambda tier: strat(tier), check, 250, 3000), Sub("names_rejected", strat_bad, check_bad, 20, 100)]
