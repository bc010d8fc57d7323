from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st
from refs import grid_sas, apply_walls

RULE = ("cases are a world (grid with walls, or a custom transition table) and a walk made of valid actions, or a pair of states; non-trivial: a walk of at "
        "least two moves, or in which some move could have been made by several actions; every rejected pair")
ASSUMPTIONS = ["trajectories have at least one state"]


@st.composite
def worlds(draw):
    w = draw(st.one_of(grid_worlds(max_states=30, max_side=7), table_worlds(max_states=6, max_actions=5, stochastic=False), table_worlds(max_states=6, max_actions=5)))
    if w["world"] == "table" and draw(bools(1)):      # some successors are hardly ever reached
        for row in w["T"]:
            for branches in row:
                if len(branches) > 1:
                    branches[0][1] = 10 ** 7
    return w


def expected_sas(w):
    if w["world"] == "table":
        return build_sas(w)
    n = world_n_states(w)
    return apply_walls(grid_sas(w["world"], tuple(w["shape"]), w["selft"]), wall_array(w["walls"], n))


def walk(sas, start, steps):
    """Actions and states of a walk of valid actions; each raw number chooses among the available actions and successors."""
    s, states, acts = start, [start], []
    for k in steps:
        av = [a for a in range(sas.shape[1]) if sas[s, a].any()]
        if not av:
            break
        a = av[k % len(av)]
        nxt = np.where(sas[s, a] > 0)[0]
        s = int(nxt[(k // 97) % len(nxt)])
        states.append(s)
        acts.append(a)
    return states, acts


def strat(tier):
    return st.fixed_dictionaries(dict(w=worlds(), start=raw, steps=paths(st.one_of(st.lists(raw, max_size=14), st.lists(raw, min_size=3, max_size=14)), (20, 140)), form=st.sampled_from(["list", "array", "tuple"])))


def check(c, ctx):
    ctx.touched = True
    mdp = build_world(c["w"])
    sas = expected_sas(c["w"])
    n = sas.shape[0]
    live = [s for s in range(n) if sas[s].any()] or [0]
    start = int(c["start"] % n) if c["start"] % 7 == 0 else live[c["start"] % len(live)]
    states, acts = walk(sas, start, c["steps"])
    given = dict(list=list, array=np.array, tuple=tuple)[c["form"]](states)
    sa = np.asarray(mdp._trajectory_to_state_action(given))
    require(sa.shape == (len(states) - 1, 2), "a trajectory of {0} states gives an array of shape {1}", len(states), sa.shape)
    require([int(x) for x in given] == states, "the trajectory was changed")
    det = bool(np.isin(sas, (0, 1)).all())
    multi = False
    for i in range(len(states) - 1):
        s, a, t = states[i], sa[i, 1], states[i + 1]
        require(sa[i, 0] == s, "step {0}: state {1}, expected {2}", i, sa[i, 0], s)
        require(a == int(a) and 0 <= a < sas.shape[1], "step {0}: action {1}", i, a)
        p = sas[s, :, t]
        require(p[int(a)] > 0 and p[int(a)] == p.max(), "step {0}: action {1} leads from {2} to {3} with probability {4}, but the best is {5}", i, int(a), s, t, p[int(a)], p.max())
        multi |= (p > 0).sum() > 1
        if det:
            got = int(mdp.get_next_state(s, int(a)))
            require(got == t, "step {0}: replaying action {1} in state {2} leads to {3}, expected {4}", i, int(a), s, got, t)
    ctx.nontrivial(len(states) > 2 or multi)
    ctx.label("deterministic" if det else "stochastic", c["w"]["world"], "several actions" if multi else "one action", "length %s" % min(len(states), 5))
    # a step to a state which cannot be reached makes the trajectory invalid
    far = [t for t in range(n) if not sas[states[-1], :, t].any()]
    if far:
        t = far[c["start"] % len(far)]
        ctx.expect_error(lambda: mdp._trajectory_to_state_action(states + [t]), "trajectory with the impossible last move %d -> %d" % (states[-1], t))


def strat_pairs(tier):
    return st.fixed_dictionaries(dict(w=worlds(), start=raw))


def check_pairs(c, ctx):
    from maMDP.algorithms.irl import state_pair_to_action
    ctx.touched = True
    mdp = build_world(c["w"])
    sas = expected_sas(c["w"])
    n = sas.shape[0]
    s = int(c["start"] % n)
    for t in range(n):
        p = sas[s, :, t]
        if p.any():
            allp = mdp._state_pair_to_action(s, t, return_max=False)
            require(sorted(int(a) for a in allp) == np.where(p > 0)[0].tolist(), "actions from {0} to {1}: {2}, expected {3}", s, t, list(allp), np.where(p > 0)[0].tolist())
            best = mdp._state_pair_to_action(s, t)
            require(len(best) == 1 and p[int(best[0])] == p.max(), "best action from {0} to {1}: {2} among probabilities {3}", s, t, best, p.tolist())
            b = state_pair_to_action(mdp, s, t)
            require(p[int(b)] == p.max(), "best action from {0} to {1}: {2} among probabilities {3}", s, t, b, p.tolist())
        else:
            ctx.nontrivial()
            ctx.expect_error(lambda: mdp._state_pair_to_action(s, t), "%d and %d are not adjacent" % (s, t))
            ctx.expect_error(lambda: mdp._state_pair_to_action(s, t, return_max=False), "%d and %d are not adjacent" % (s, t))
            ctx.expect_error(lambda: state_pair_to_action(mdp, s, t), "%d and %d are not adjacent" % (s, t))


SUBS = [Sub("walks", strat, check, 400, 8000), Sub("pairs", strat_pairs, check_pairs, 150, 3000)]
