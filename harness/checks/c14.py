from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st
from checks.c12 import fix_starts

RULE = ("cases are a world, an agent planning by tree search and a sequence of searches with moves in between; non-trivial: at least 3 simulations "
        "of at least 2 moves in a world with at least 3 states")
ASSUMPTIONS = ["deterministic worlds in which every reachable state has an action (documented)", "the agent's weight for its own position is 0",
               "features an agent consumes are non-negative"]


@st.composite
def search_worlds(draw, tier, max_states=16, walls=True, n_feat=(1, 3)):
    if draw(bools(3)):
        w = draw(table_worlds(max_states=7, max_actions=4, stochastic=False, dead=False, n_feat=n_feat))
        if draw(bools(5)):       # make some actions unavailable, keeping the first
            for row in w["T"]:
                for a in range(1, w["m"]):
                    if draw(bools(3)):
                        row[a] = []
    else:
        w = draw(grid_worlds(max_states=max_states, max_side=5, min_states=2, walls=walls, n_feat=n_feat, big=2 if max_states > 9 else 1))
        w["selft"] = w["selft"] or bool(w["walls"])
    return w


def nonneg_consumed(w, A):
    """make the features anyone consumes non-negative"""
    rows = [dict(r, cells=[list(x) for x in r["cells"]]) for r in w["features"]]
    for a in A:
        for f in a["consumes"]:
            if f < len(rows):
                rows[f] = dict(rows[f], cells=[[s, abs(v)] for s, v in rows[f]["cells"]])
    return dict(w, features=rows)


@st.composite
def strat(draw, tier):
    w = draw(search_worlds(tier))
    k = draw(upto(1, 3, 5))
    A = draw(agent_specs(k, len(w["features"]), algorithms=("null",), self_weight=False))
    i = draw(st.integers(0, k - 1))
    A[i]["algorithm"] = "mcts"
    A[i]["mcts"] = dict(n_iter=draw(upto(1, 40, 320)), n_steps=draw(st.integers(1, 8)), C=draw(st.sampled_from([1, 1, 0, 0.5, 5, 50])), interactive=False, return_states=True, verbose=draw(bools(1)))
    w = nonneg_consumed(w, A)
    fits = []
    for _ in range(draw(st.integers(1, 3))):
        plan = None
        if draw(bools(4)):
            T = draw(st.integers(1, 3))
            plan = [[draw(st.integers(0, 3)) for _ in range(T)] for _ in range(draw(st.sampled_from([1, k])))]
            if sum(plan[0]) == 0:
                plan[0][-1] = 1
        fits.append(dict(plan=plan, then=draw(st.sampled_from(["step", "step", "move", "other", "none", "walls"])), arg=draw(raw), seed=draw(st.integers(0, 10 ** 6))))
    return dict(w=w, agents=A, who=i, fits=fits)


def successors(sas, s):
    return [int(x) for x in np.argwhere(sas[s])[:, 1]]


def choose_ok(expand, V, N, states, C, node, chosen, what):
    """checks one choice of the searching agent; returns the new expand flag"""
    from maMDP.algorithms.mcts import UCB
    require(chosen in states, "{0}: moved {1} -> {2}, which is not a valid transition (successors {3})", what, node, chosen, states)
    if not expand:
        return False
    fresh = [s for s in states if N[s] == 0]
    if fresh:
        require(chosen in fresh, "{0}: chose visited state {1} although {2} are unvisited", what, chosen, fresh)
        return False
    sa = np.array(states)
    if N[node] > 0:
        ucb = V[sa] / (1 + N[sa]) + C * np.sqrt(2 * np.log(N[node]) / (1 + N[sa]))
    else:
        ucb = np.asarray(UCB(V, N, sa, C, node))
        require(np.all(np.isfinite(ucb)), "{0}: upper confidence bounds {1} at state {2}, which was never entered itself", what, ucb.tolist(), node)
    mine = max(u for u, s in zip(ucb, states) if s == chosen)
    require(mine >= ucb.max() - 1e-9 * (1 + abs(ucb.max())), "{0}: chose {1} with bound {2}, the best is {3}", what, chosen, mine, ucb.max())
    return True


def replay_single(sas, F, r, consumes, start, trajs, lengths, C, n_iter, walls, what):
    n = F.shape[1]
    V, N = np.zeros(n), np.zeros(n)
    require(len(trajs) == n_iter, "{0}: {1} simulations, expected {2}", what, len(trajs), n_iter)
    for it, t in enumerate(trajs):
        t = [int(s) for s in t]
        w2 = "%s, simulation %d" % (what, it + 1)
        require(len(t) in lengths, "{0}: has {1} moves, planned {2}", w2, len(t), sorted(lengths))
        G = F.copy()
        cur, expand, R = start, True, 0.0
        for s in t:
            expand = choose_ok(expand, V, N, successors(sas, cur), C, cur, s, w2)
            if walls is not None:
                require(not walls[s], "{0}: entered walled state {1}", w2, s)
            R += float(r @ G[:, s])
            G[consumes, s] = 0
            cur = s
        for s in t:
            V[s] += R
            N[s] += 1
    return V, N


def compare(alg, q, V, N, sas, pos, what):
    n = len(V)
    aN, aV = np.asarray(alg.N, dtype=float), np.asarray(alg.V, dtype=float)
    require(aN.shape == (n,) and np.array_equal(aN, N), "{0}: visit counts {1}, trajectories imply {2}", what, aN.tolist(), N.tolist())
    require(aV.shape == (n,) and np.allclose(aV, V, rtol=1e-8, atol=1e-7), "{0}: accumulated values {1}, trajectories imply {2}", what, aV.tolist(), V.tolist())
    q = np.asarray(q, dtype=float)
    require(q.shape == sas.shape[:2], "{0}: action values of shape {1}", what, q.shape)
    for s in range(n):
        for a in range(sas.shape[1]):
            if s == pos and sas[s, a].any():
                t = int(sas[s, a].argmax())
                e = V[t] / (1 + N[t])
                require(abs(q[s, a] - e) <= 1e-8 * (1 + abs(e)), "{0}: action value ({1},{2}) is {3}, expected {4}", what, s, a, q[s, a], e)
            else:
                require(np.isnan(q[s, a]), "{0}: action value ({1},{2}) is {3}, expected none", what, s, a, q[s, a])


def check(c, ctx):
    w, A = fix_starts(c["w"], c["agents"])
    i, k = c["who"], len(c["agents"])
    ctx.touched = True
    env, mdp, names = build_env(w, A)
    nm = names[i]
    sp = A[i]["mcts"]
    n = world_n_states(w)
    r = np.array(A[i]["reward"], dtype=float)
    for j, f in enumerate(c["fits"]):
        what = "search %d" % (j + 1)
        pos = int(env.agents[nm].position)
        sas = np.asarray(mdp.sas).copy()
        F = np.array(mdp.features, dtype=float, copy=True)
        seed_all(f["seed"])
        if f["plan"] is None:
            env.fit(nm)
            lengths = {sp["n_steps"]}
        else:
            env.fit(nm, n_moves=[list(x) for x in f["plan"]])
            lengths = {sum(f["plan"][0])}      # others' moves are not simulated
            ctx.label("no move in the first turn" if f["plan"][0][0] == 0 else "move in the first turn")
        alg = env.agents[nm].algorithm
        walls = None if w["world"] == "table" else np.asarray(mdp.walls)
        V, N = replay_single(sas, F, r, list(A[i]["consumes"]), pos, alg.visited_states, lengths, sp["C"], sp["n_iter"], walls, what)
        compare(alg, env.get_agent_q_values(nm), V, N, sas, pos, what)
        ctx.nontrivial(sp["n_iter"] >= 3 and min(lengths) >= 2 and n >= 3)
        ctx.label("%d searches" % (j + 1), "given plan" if f["plan"] else "default plan", "start revisited" if N[pos] > 0 else "start not revisited",
                  "consuming" if len(A[i]["consumes"]) else "not consuming")
        if f["then"] == "step":
            env.step(nm)
        elif f["then"] == "move":
            free = np.where(sas.sum(axis=(1, 2)) > 0)[0]
            env.set_agent_position(nm, int(free[f["arg"] % len(free)]))
        elif f["then"] == "other" and k > 1:
            o = names[(i + 1) % k]
            env.set_agent_position(o, int(f["arg"] % n))
        elif f["then"] == "walls" and w["world"] != "table" and w["selft"]:
            wa = wall_array([f["arg"]], n)
            wa[int(env.agents[nm].position)] = 0
            mdp.walls = wa


def strat_fn(tier):
    return st.fixed_dictionaries(dict(V=st.lists(st.integers(-20, 20), min_size=10, max_size=10), N=st.lists(st.integers(0, 12), min_size=10, max_size=10),
                                      states=st.lists(st.integers(0, 9), min_size=1, max_size=6), C=st.sampled_from([1, 0, 0.5, 10]), node=st.integers(0, 9), expand=st.booleans()))


def check_fn(c, ctx):
    from maMDP.algorithms.mcts import UCB, MCTS_next_node
    V, N, states = np.array(c["V"], dtype=float), np.array(c["N"], dtype=float), np.array(c["states"])
    ctx.touched = True
    u = np.asarray(UCB(V, N, states, float(c["C"]), c["node"]))
    require(np.all(np.isfinite(u)), "upper confidence bounds {0} at a node entered {1} times", u.tolist(), N[c["node"]])
    if N[c["node"]] > 0:
        e = V[states] / (1 + N[states]) + c["C"] * np.sqrt(2 * np.log(N[c["node"]]) / (1 + N[states]))
        require(np.allclose(u, e), "upper confidence bounds {0}, expected {1}", u.tolist(), e.tolist())
    keep = V.copy(), N.copy()
    for _ in range(5):
        nx, ex = MCTS_next_node(c["expand"], V, N, states, float(c["C"]), c["node"])
        e2 = choose_ok(c["expand"], V, N, c["states"], c["C"], c["node"], int(nx), "next node")
        require(bool(ex) == e2, "expansion flag {0}, expected {1}", ex, e2)
    require(np.array_equal(keep[0], V) and np.array_equal(keep[1], N), "choosing changed the statistics")
    ctx.nontrivial(c["expand"] and len(set(c["states"])) > 1)
    ctx.label("unentered node" if N[c["node"]] == 0 else "entered node", "some unvisited" if (N[states] == 0).any() else "all visited")


SUBS = [Sub("searches", lambda tier: strat(tier), check, 200, 3000), Sub("choice", strat_fn, check_fn, 300, 4000)]
