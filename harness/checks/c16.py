from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st
from checks.c12 import fix_starts
from checks.c15 import teams, settings_

RULE = ("cases are an environment of 2-4 agents and a sequence of searches with changes to the world in between, run with and without caching; "
        "non-trivial: an opponent is modelled by solving and moves in more than one simulation")
ASSUMPTIONS = ["the same random seed is set before every search and step in both runs", "worlds in which every reachable state has an action"]


@st.composite
def strat(draw, tier):
    w, A, i = draw(teams(tier, self_weight=True))
    k = len(A)
    for a in A:
        z = draw(st.integers(0, 9))
        if z == 0:
            a["reward"] = [0] * len(a["reward"])
        elif z == 1:
            a["reward"] = [0] * len(a["reward"])
            a["reward"][draw(st.integers(0, len(a["reward"]) - 1))] = 2
        elif z == 2:
            a["reward"] = [r * 0.01 for r in a["reward"]]
    forage = draw(bools(3))
    if forage:                     # an opponent that eats what it likes, of any intensity, while being simulated
        o = (i + 1 + draw(st.integers(0, k - 2))) % k
        nf = len(w["features"])
        for f in range(min(nf, 2)):
            w["features"][f] = dict(fill=0, cells=draw(st.lists(st.tuples(raw, st.sampled_from([0.2, 0.9, 0.5, 0.7, 1, 2, 0.3])).map(list), min_size=1, max_size=3)))
            A[o]["reward"][f] = draw(st.sampled_from([1, 1, 2, 0.5]))
        A[o]["consumes"] = list(range(min(nf, 2))) + [f for f in A[o]["consumes"] if f >= nf]
    A[i]["algorithm"] = "mcts"
    big = world_n_states(w) > 60      # solving for opponents is slow there
    s = draw(settings_(n_iter=2 if big else 10))
    s["reset_cache"] = draw(bools(3))
    if draw(bools(7)):
        s["opponent_policy_method"] = "solve"
    A[i]["mcts"] = s
    ops = []
    for _ in range(1 if big else draw(st.integers(1, 4))):
        T = draw(st.integers(1, 1 if big else 3))
        plan = [[draw(st.sampled_from([3, 2, 4] if forage else [1, 1, 2, 2, 0, 3])) for _ in range(T)] for _ in range(k)]
        plan[0][0] = max(1, plan[0][0])
        if draw(bools(8)):
            plan[1][0] = max(1, plan[1][0])
        ops.append(dict(plan=draw(st.sampled_from([plan, plan, plan, None])), seed=draw(st.integers(0, 10 ** 6)),
                        then=draw(st.lists(st.tuples(st.sampled_from(["move", "step_other", "step_self", "reset", "walls", "weights", "rebuild", "settings", "consume"]), raw).map(list), max_size=3))))
    return dict(w=w, agents=A, who=i, ops=ops)


def new_walls(w, mdp, occupied, arg):
    """another wall layout in which no agent stands on a wall or can get stuck, or None"""
    n = world_n_states(w)
    rng = np.random.RandomState(arg)
    walls = (rng.rand(n) < 0.35).astype(float)
    walls[occupied] = 0
    open_ = np.where(walls == 0)[0]
    sas = refs.grid_sas(w["world"], w["shape"], w["selft"])
    if not all(sas[s][:, open_].any() for s in open_):
        return None
    return walls


def rebuilt(w, A, i, env, mdp, names, arg):
    """the searching agent in a new environment over the same world, among other opponents"""
    k, nf = len(A), len(w["features"])
    gone = arg % k if k > 2 and arg % 3 else None
    keep = [j for j in range(k) if j == i or j != gone]
    free = np.where(np.asarray(mdp.sas).sum(axis=(1, 2)) > 0)[0]
    specs = []
    for x, j in enumerate(keep):
        r = np.roll(np.array(A[j]["reward"], dtype=float), arg % 5)[:nf + len(keep)]
        r[nf + x] = 0
        a = dict(A[j], reward=r.tolist(), consumes=[f for f in A[j]["consumes"] if f < nf], start=int(free[(arg + 3 * j) % len(free)]))
        specs.append(a)
    return keep, specs


def check(c, ctx):
    w, A = fix_starts(c["w"], c["agents"])
    i, k = c["who"], len(A)
    envs, searchers = [], []
    ctx.touched = True
    for caching in (False, True):
        B = [dict(a) for a in A]
        B[i] = dict(B[i], mcts=dict(A[i]["mcts"], caching=caching))
        for b in B:
            b["seed"] = None
        objs = [build_agent(x, b) for x, b in zip(agent_names(k), B)]
        searchers.append(objs[i])
        envs.append(build_env(w, B, agent_objs=objs))
    names = envs[0][2]
    nm = names[i]
    solve = A[i]["mcts"]["opponent_policy_method"] == "solve"
    for j, op in enumerate(c["ops"]):
        res = []
        for env, mdp, _ in envs:
            seed_all(op["seed"])
            if op["plan"] is None:
                env.fit(nm)
            else:
                env.fit(nm, n_moves=[list(x) for x in op["plan"]][:k])
            alg = env.agents[nm].algorithm
            res.append((np.array(alg.V, copy=True), np.array(alg.N, copy=True), [[int(s) for s in t] for t in alg.visited_states],
                        [[[int(s) for s in p] for p in t] for t in alg.other_agent_visited_states], np.array(env.get_agent_q_values(nm), copy=True)))
        a, b = res
        what = "search %d" % (j + 1)
        require(a[3] == b[3], "{0}: opponents' simulated paths are {1} without and {2} with caching", what, a[3], b[3])
        require(a[2] == b[2], "{0}: simulated paths are {1} without and {2} with caching", what, a[2], b[2])
        require(np.array_equal(a[1], b[1]), "{0}: visit counts {1} without and {2} with caching", what, a[1].tolist(), b[1].tolist())
        require(np.allclose(a[0], b[0], rtol=1e-9, atol=1e-9), "{0}: values {1} without and {2} with caching", what, a[0].tolist(), b[0].tolist())
        require(np.allclose(a[4], b[4], rtol=1e-9, atol=1e-9, equal_nan=True), "{0}: action values differ with caching", what)
        ctx.nontrivial(solve and sum(1 for t in a[3] if any(t)) > 1)
        ctx.label("solving" if solve else "random", "cache kept" if not A[i]["mcts"]["reset_cache"] else "cache reset", "%d searches" % (j + 1))
        stale = False
        for kind, arg in op["then"]:
            out = []
            if kind == "rebuild":
                keep, specs = rebuilt(w, A, i, envs[0][0], envs[0][1], names, arg)
                fresh = []
                for (env, mdp, _), obj in zip(envs, searchers):
                    objs = [obj if j == i else build_agent(names[j], dict(A[j], seed=None)) for j in keep]
                    fresh.append(build_env(w, specs, mdp=mdp, names=[names[j] for j in keep], agent_objs=objs))
                envs, A, k, i = fresh, specs, len(keep), keep.index(i)
                names = envs[0][2]
                ctx.label("searching agent reused")
                continue
            for env, mdp, _ in envs:
                seed_all(arg)
                if kind == "walls" and w["world"] != "table":
                    walls = new_walls(w, mdp, [int(env.agents[x].position) for x in names], arg)
                    if walls is not None:
                        mdp.walls = walls
                        stale = True
                        ctx.label("walls changed")
                elif kind == "weights":
                    x = names[arg % k]
                    env.agents[x].reward_function = np.roll(np.asarray(env.agents[x].reward_function, dtype=float), 1 + arg % 3)
                    ctx.label("weights changed")
                elif kind == "settings":
                    env.agents[nm].algorithm.VI_kwargs = dict(A[i]["mcts"]["VI_kwargs"], VI_discount=[0.9, 0.5, 0.2][arg % 3], **({} if arg % 4 else dict(VI_max_iter=1 + arg % 3)))
                    ctx.label("settings changed")
                elif kind == "consume":
                    mdp.consume_features([arg % len(w["features"])], int(arg // 7 % world_n_states(w)))
                    ctx.label("feature consumed")
                if kind == "move":
                    free = np.where(np.asarray(mdp.sas).sum(axis=(1, 2)) > 0)[0]
                    env.set_agent_position(names[arg % k], int(free[arg // 11 % len(free)]))
                elif kind == "step_other":
                    o = names[(i + 1 + arg % (k - 1)) % k]
                    env.fit(o)
                    env.step(o)
                elif kind == "step_self" and not stale:
                    pos = env.agents[nm].position
                    if not np.isnan(np.asarray(env.get_agent_q_values(nm))[pos]).all():
                        env.step(nm)
                elif kind == "reset" and all(np.asarray(mdp.sas)[a["start"] % mdp.n_states].any() for a in A):
                    env.reset()
                out.append(np.array(mdp.features, copy=True))
            require(np.array_equal(out[0], out[1]), "{0}: the worlds developed differently", what)


SUBS = [Sub("caching", lambda tier: strat(tier), check, 250, 3000)]
