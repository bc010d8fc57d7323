from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st
from checks.c12 import fix_starts
from checks.c14 import search_worlds, nonneg_consumed, choose_ok, compare, successors

RULE = ("cases are an environment of 2-4 agents, one of them searching interactively; non-trivial: some opponent moved in a simulation and "
        "there is a consumption relation between two agents")
ASSUMPTIONS = ["deterministic worlds in which every reachable state has an action", "agents' weights for their own position are 0", "consumed features are non-negative",
               "overlaps where it depends on the order of evaluation who is eaten (an agent that eats and is eaten at once) are not judged",
               "what entering a state pays includes the indicators of agents as simulated at that moment, the value of a consumed opponent comes on top",
               "opponents' action values are solved to 1e-8, and an action within 1e-5 of the best counts as optimal"]


@st.composite
def settings_(draw, n_iter=12):
    s = dict(n_iter=draw(st.integers(1, n_iter)), n_steps=draw(st.integers(1, 8)), C=draw(st.sampled_from([1, 1, 0, 5])), interactive=True, return_states=True,
             return_other_agent_states=True, caught_cost=draw(st.sampled_from([-50, -50, -7, -1.5, 0, 3])),
             opponent_policy_method=draw(st.sampled_from(["solve", "solve", "solve", "random"])), opponent_action_selection=draw(st.sampled_from(["max", "max", "max", "softmax"])),
             softmax_temperature=draw(st.sampled_from([1, 0.5, 2.0])), verbose=draw(bools(1)))
    s["VI_kwargs"] = dict(VI_tol=1e-8, VI_discount=draw(st.sampled_from([0.9, 0.5, 0.8])))
    return s


@st.composite
def teams(draw, tier, self_weight=False, max_states=9, max_agents=4):
    w = draw(search_worlds(tier, max_states=max_states))
    k = draw(st.sampled_from([2, 2, 2, 3, 3, 4][:3 + max_agents - 1]))
    A = draw(agent_specs(k, len(w["features"]), algorithms=("null",), self_weight=self_weight, max_moves=2))
    nf = len(w["features"])
    i = draw(st.integers(0, k - 1))
    for j, a in enumerate(A):      # more predators and prey than chance would give
        if draw(bools(5)):
            o = i if j != i else (i + 1 + draw(st.integers(0, k - 2))) % k
            if nf + o not in a["consumes"]:
                a["consumes"] = a["consumes"][:2] + [nf + o]
            if draw(bools(7)):
                a["reward"][nf + o] = 4
    if draw(bools(9)):             # mostly teams in which no opponent both eats and is eaten, so that overlaps are unambiguous
        eater = [draw(st.booleans()) for _ in range(k)]
        for j, a in enumerate(A):
            if j != i and not eater[j]:
                a["consumes"] = [f for f in a["consumes"] if f < nf]
            elif j != i:
                a["consumes"] = [f for f in a["consumes"] if f < nf or f - nf == i or not eater[f - nf]]
            else:
                a["consumes"] = [f for f in a["consumes"] if f < nf or not eater[f - nf]]
    if k > 2 and draw(bools(4)):   # a herd of harmless prey sharing a state, all eaten by the searching agent
        herd = [j for j in range(k) if j != i]
        for j in herd:
            A[j]["start"] = A[herd[0]]["start"]
            A[j]["consumes"] = [f for f in A[j]["consumes"] if f < nf]
            A[i]["reward"][nf + j] = draw(st.sampled_from([2, 3, 0.5, 7]))
        A[i]["consumes"] = [f for f in A[i]["consumes"] if f < nf][:1] + [nf + j for j in herd]
    elif draw(bools(8)):           # start apart
        step = draw(st.integers(1, 3))
        for j, a in enumerate(A):
            a["start"] = a["start"] % 5 + j * step
    if tier == "quick":            # integer weights are a separate (slow) compilation
        for a in A:
            a["as_list"] = False
    w = nonneg_consumed(w, A)
    return w, A, i


@st.composite
def strat(draw, tier):
    w, A, i = draw(teams(tier))
    k = len(A)
    A[i]["algorithm"] = "mcts"
    big = world_n_states(w) > 60      # solving for opponents is slow there
    A[i]["mcts"] = draw(settings_(n_iter=2 if big else 12))
    fits = []
    for _ in range(1 if big else draw(st.integers(1, 2))):
        T = draw(st.integers(1, 2 if big else 4))
        plan = [[draw(st.sampled_from([1, 1, 2, 2, 0, 3])) for _ in range(T)] for _ in range(k)]
        for j in range(1, k):          # opponents that stay put
            if draw(bools(2)):
                plan[j] = [0] * T
        if draw(bools(8)) and sum(plan[0]) == 0:
            plan[0][0] = 1
        if sum(map(sum, plan)) == 0:
            plan[0][0] = 1
        fits.append(dict(plan=plan, default=draw(bools(2)), then=draw(st.sampled_from(["none", "move", "consume"])), arg=draw(raw), seed=draw(st.integers(0, 10 ** 6))))
    return dict(w=w, agents=A, who=i, fits=fits)


class Ambiguous(Exception):
    pass


def overlap(pos, active, eats, values, cost):
    """returns (added, caught); updates active"""
    K = len(pos)
    pairs = [(a, b) for a in range(K) for b in range(K) if a != b and eats[a][b] and active[a] and active[b] and pos[a] == pos[b]]
    eaters, eaten = {a for a, _ in pairs}, {b for _, b in pairs}
    if (eaters & eaten) - {0}:
        raise Ambiguous()
    added = 0.0
    for b in sorted(eaten - {0}):
        active[b] = False
        if (0, b) in pairs:
            added += values[b]
    if 0 in eaten:
        return added + cost, True
    return added, False


def check(c, ctx):
    w, A = fix_starts(c["w"], c["agents"])
    i, k = c["who"], len(A)
    nf = len(w["features"])
    n = world_n_states(w)
    ctx.touched = True
    env, mdp, names = build_env(w, A)
    nm = names[i]
    sp = A[i]["mcts"]
    order = [i] + [j for j in range(k) if j != i]
    rew = [np.array(A[j]["reward"], dtype=float) for j in order]
    cons = [list(A[j]["consumes"]) for j in order]
    eats = [[(nf + order[b]) in cons[a] and a != b for b in range(k)] for a in range(k)]
    values = [0.0] + [float(rew[0][nf + order[b]]) for b in range(1, k)]
    memo = {}
    for jf, f in enumerate(c["fits"]):
        what = "search %d" % (jf + 1)
        pos0 = [int(env.agents[names[j]].position) for j in order]
        sas = np.asarray(mdp.sas).copy()
        F0 = np.array(mdp.features, dtype=float, copy=True)
        plan = [f["plan"][j] for j in range(k)]
        seed_all(f["seed"])
        if f["default"]:
            env.fit(nm)
        else:
            env.fit(nm, n_moves=[list(x) for x in plan])
        alg = env.agents[nm].algorithm
        if f["default"]:        # the planned number of steps, shared out in turns of the agents' own lengths
            plan, left = [[] for _ in range(k)], sp["n_steps"]
            while left > 0:
                for a in range(k):
                    plan[a].append(min(left, A[order[a]]["n_moves"]))
                    left -= plan[a][-1]
            ctx.label("default plan")
        seq = [a for t in range(len(plan[0])) for a in range(k) for _ in range(plan[a][t])]
        V, N = np.zeros(n), np.zeros(n)
        own, others = alg.visited_states, alg.other_agent_visited_states
        require(len(own) == sp["n_iter"] and len(others) == sp["n_iter"], "{0}: {1} simulations recorded, expected {2}", what, len(own), sp["n_iter"])
        try:
            for it in range(sp["n_iter"]):
                w2 = "%s, simulation %d" % (what, it + 1)
                paths = [[int(s) for s in own[it]]] + [[int(s) for s in p] for p in others[it]]
                require(len(paths) == k, "{0}: paths of {1} agents", w2, len(paths))
                used = [0] * k
                pos, active, F = list(pos0), [True] * k, F0.copy()
                R, expand = 0.0, True
                added, caught = overlap(pos, active, eats, values, sp["caught_cost"])
                R += added
                for a in seq:
                    if caught:
                        break
                    if not active[a]:
                        ctx.label("eaten opponent's turn")
                        continue
                    require(used[a] < len(paths[a]), "{0}: {1} made only {2} moves (plan {3}, paths {4})", w2, names[order[a]], used[a], plan, paths)
                    s = paths[a][used[a]]
                    used[a] += 1
                    succ = successors(sas, pos[a])
                    if a == 0:
                        expand = choose_ok(expand, V, N, succ, sp["C"], pos[0], s, w2)
                        R += float(rew[0] @ F[:, s])
                    else:
                        require(s in succ, "{0}: opponent moved {1} -> {2}, valid are {3}", w2, pos[a], s, succ)
                        ctx.label("opponent moved")
                        if sp["opponent_policy_method"] == "solve" and sp["opponent_action_selection"] == "max":
                            rs = rew[a] @ F
                            key = rs.tobytes()
                            if key not in memo:
                                memo[key] = refs.solve_optimal(sas, rs, sp["VI_kwargs"]["VI_discount"])[1]
                            Q = memo[key][pos[a]]
                            best = max(Q[x] for x in range(sas.shape[1]) if sas[pos[a], x, s] > 0)
                            require(best >= Q.max() - 1e-5 * (1 + abs(Q.max())), "{0}: {1} at {2} moved to {3} worth {4} to it; its best action is worth {5} (agents at {6})",
                                    w2, names[order[a]], pos[a], s, best, Q.max(), pos)
                            if (Q[np.isfinite(Q)] < Q.max() - 1e-5).any():
                                ctx.label("greedy opponent had a choice")
                    pos[a] = s
                    F[nf + order[a], :] = 0
                    F[nf + order[a], s] = 1
                    F[cons[a], s] = 0
                    added, caught = overlap(pos, active, eats, values, sp["caught_cost"])
                    R += added
                    if added and not caught:
                        ctx.label("ate an opponent")
                if caught:
                    ctx.label("caught")
                require([len(p) for p in paths] == used, "{0}: moves made {1}, expected {2} (plan {3}, caught {4}, active {5})", w2, [len(p) for p in paths], used, plan, caught, active)
                for s in paths[0]:
                    V[s] += R
                    N[s] += 1
        except Ambiguous:
            ctx.label("ambiguous overlap")
            return
        compare(alg, env.get_agent_q_values(nm), V, N, sas, pos0[0], what)
        ctx.nontrivial("opponent moved" in ctx.labels and any(any(r) for r in eats))
        free = np.where(sas.sum(axis=(1, 2)) > 0)[0]
        if f["then"] == "move":
            env.set_agent_position(names[f["arg"] % k], int(free[f["arg"] // 7 % len(free)]))
        elif f["then"] == "consume":
            o = names[order[1]]
            env.fit(o)
            env.step(o)


SUBS = [Sub("interactive", lambda tier: strat(tier), check, 500, 5000)]
