from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st
from checks.c12 import arenas, fix_starts

RULE = ("cases are a layout request, or a refitting run with a recording planner; non-trivial: the planned moves spill over into another turn "
        "or are cut by the end of the last one")
ASSUMPTIONS = ["when no planning moves are given and the number of steps differs from the agent's moves per turn, the total is not specified, only the layout rules",
               "every agent has at least one move per turn"]


def strat_fn(tier):
    @st.composite
    def s(draw):
        moves = draw(st.integers(1, 9))
        cur = draw(st.integers(0, moves - 1)) if draw(bools(9)) else moves + draw(st.integers(0, 4))
        return dict(cur=cur, turns=draw(st.integers(1, 8)), moves=moves, total=draw(st.one_of(st.integers(1, 12), st.integers(1, 80))))
    return s()


def check_fn(c, ctx):
    from maMDP.environments import get_n_moves_plan
    ctx.touched = True
    if c["cur"] >= c["moves"]:
        ctx.label("rejected")
        ctx.expect_error(lambda: get_n_moves_plan(c["cur"], c["turns"], c["moves"], c["total"]), "current move %d of a turn of %d" % (c["cur"], c["moves"]))
        return
    got = [int(x) for x in get_n_moves_plan(c["cur"], c["turns"], c["moves"], c["total"])]
    exp = refs.plan_layout(c["cur"], c["turns"], c["moves"], c["total"])
    require(got == exp, "layout {0}, expected {1}", got, exp)
    ctx.nontrivial(c["total"] > c["moves"] - c["cur"])
    ctx.label("cut" if sum(exp) < c["total"] else "fits", "mid-turn" if c["cur"] else "turn start")


@st.composite
def strat_run(draw, tier):
    c = draw(arenas(tier, max_agents=4, algorithms=("null",)))
    k = len(c["agents"])
    for a in c["agents"]:
        a["n_moves"] = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["none", "int", "list", "list"]))
    steps = None
    if kind == "int":
        steps = draw(st.integers(1, 6))
    elif kind == "list":
        steps = [draw(st.integers(1, 5)) for _ in range(draw(st.integers(1, k)))]
    c["steps"] = steps
    c["plan"] = draw(st.one_of(st.none(), st.lists(st.integers(1, 14), min_size=k, max_size=k)))
    c["tuples"] = draw(st.booleans())
    c["turns"] = draw(st.integers(1, 4))
    c["who"] = draw(st.integers(0, k - 1))
    c["again"] = draw(st.booleans())
    return c


def recorder(calls):
    from maMDP.algorithms.base import Algorithm

    class Recorder(Algorithm):
        def _fit(self, mdp, reward_function, position, n_moves, *args, **kwargs):
            calls.append(None if n_moves is None else [[int(x) for x in row] for row in n_moves])
            q = np.where(np.asarray(mdp.sas).sum(axis=2) > 0, 1.0, -np.inf)
            return np.zeros(mdp.n_states), q
    return Recorder


def build(c, ctx):
    from maMDP.agents import Agent
    w, A = fix_starts(c["w"], c["agents"])
    calls = []
    names = agent_names(len(A))
    objs = [Agent(names[i], n_moves=a["n_moves"], algorithm=recorder(calls)) for i, a in enumerate(A)]
    ctx.touched = True
    env, mdp, names = build_env(w, A, names=names, agent_objs=objs)
    return env, names, A, calls


def check_run(c, ctx):
    env, names, A, calls = build(c, ctx)
    k, i = len(names), c["who"]
    order = [i] + [j for j in range(k) if j != i]
    length = [A[j]["n_moves"] for j in order]
    if isinstance(c["steps"], int):
        length[0] = c["steps"]
    elif c["steps"] is not None:
        length[:len(c["steps"])] = c["steps"]
    for rnd in range(2 if c["again"] else 1):
        del calls[:]
        kw = {}
        if c["steps"] is not None:
            kw["n_steps"] = list(c["steps"]) if isinstance(c["steps"], list) else c["steps"]
        if c["plan"] is not None:
            kw["n_moves_plan"] = tuple(c["plan"]) if c["tuples"] else list(c["plan"])
        env.step_multi(names[i], refit=True, stop_on_caught=False, n_turns_plan=c["turns"], **kw)
        require(c["plan"] is None or list(kw["n_moves_plan"]) == c["plan"], "the caller's planning moves were modified")
        require(not isinstance(c["steps"], list) or kw["n_steps"] == c["steps"], "the caller's steps were modified")
        require(len(calls) == length[0], "{0} moves, but the planner was run {1} times", length[0], len(calls))
        for m, got in enumerate(calls):
            what = "move %d (steps %s, planning %s over %d turns)" % (m + 1, c["steps"], c["plan"], c["turns"])
            require(got is not None and len(got) == k, "{0}: planner was told {1} for {2} agents", what, got, k)
            for j in range(k):
                row = got[j]
                require(len(row) == c["turns"], "{0}: {1} entries for {2} turns", what, len(row), c["turns"])
                start = m if j == 0 else 0
                strict = c["plan"] is not None or c["steps"] is None
                if strict:
                    total = c["plan"][j] if c["plan"] is not None else A[order[j]]["n_moves"]
                    exp = refs.plan_layout(start, c["turns"], length[j], total)
                    require(row == exp, "{0}: {1} told to simulate {2}, expected {3}", what, names[order[j]], row, exp)
                    ctx.nontrivial(total > length[j] - start)
                else:
                    require(all(0 <= x <= length[j] for x in row) and row[0] <= length[j] - start, "{0}: {1} told to simulate {2} in turns of {3}", what, names[order[j]], row, length[j])
                    # moves are laid contiguously: a later turn is only used once the earlier ones are full
                    require(row == refs.plan_layout(start, c["turns"], length[j], sum(row)), "{0}: {1} told to simulate {2} in turns of {3}", what, names[order[j]], row, length[j])
    ctx.label("%d agents" % k, "given plan" if c["plan"] is not None else "default plan", "list of steps" if isinstance(c["steps"], list) else "steps %s" % ("default" if c["steps"] is None else "int"))


@st.composite
def strat_inter(draw, tier):
    c = draw(arenas(tier, max_agents=3, algorithms=("null",)))
    k = len(c["agents"])
    c["turns"] = draw(st.integers(1, 3))
    c["moves"] = draw(st.one_of(st.none(), st.lists(st.lists(st.integers(0, 3), min_size=c["turns"], max_size=c["turns"]), min_size=k, max_size=k)))
    c["plan"] = draw(st.one_of(st.none(), *[st.lists(st.integers(1, 8), min_size=k, max_size=k)] * 3))
    return c


def check_inter(c, ctx):
    """interactive runs: one entry per agent (acting one first) and per turn; the layout rules hold on every move"""
    env, names, A, calls = build(c, ctx)
    k = len(names)
    kw = dict(n_turns=c["turns"]) if c["moves"] is None else dict(n_moves=[list(x) for x in c["moves"]])
    if c["plan"] is not None:
        kw["n_moves_plan"] = list(c["plan"])
    env.step_multi_interactive(refit=True, stop_on_caught=False, **kw)
    require(c["plan"] is None or kw["n_moves_plan"] == c["plan"], "the caller's planning moves were modified")
    per = c["moves"] or [[a["n_moves"]] * c["turns"] for a in A]
    n = 0
    for t in range(c["turns"]):
        for i in range(k):
            L = [per[i][t]] + [A[j]["n_moves"] for j in range(k) if j != i]
            for m in range(per[i][t]):
                require(n < len(calls), "fewer planning runs than moves")
                got = calls[n]
                n += 1
                what = "turn %d, agent %s, move %d" % (t + 1, names[i], m + 1)
                require(got is not None and len(got) == k, "{0}: planner was told {1}", what, got)
                require(all(len(r) == c["turns"] - t for r in got), "{0}: {1} turns are left, told to simulate {2}", what, c["turns"] - t, got)
                who = [i] + [j for j in range(k) if j != i]
                for j in range(k):
                    if c["moves"] is not None and (j or c["plan"] is None):      # lengths of others' turns, and default plans, follow the agents' own moves per turn
                        require(list(got[j]) == refs.plan_layout(m if j == 0 else 0, c["turns"] - t, L[j], sum(got[j])), "{0}: {1} told to simulate {2} in turns of {3}", what, names[who[j]], got[j], L[j])
                        continue
                    total = c["plan"][j] if c["plan"] is not None else A[who[j]]["n_moves"]
                    exp = refs.plan_layout(m if j == 0 else 0, c["turns"] - t, L[j], total)
                    require(list(got[j]) == exp, "{0}: {1} told to simulate {2}, expected {3}", what, names[who[j]], got[j], exp)
                ctx.nontrivial(k > 1 or c["turns"] > 1)
    require(n == len(calls), "more planning runs than moves")


@st.composite
def strat_bad(draw, tier):
    c = draw(arenas(tier, max_agents=3, algorithms=("null",)))
    k = len(c["agents"])
    c["kind"] = draw(st.sampled_from(["zero", "negative", "short", "long"]))
    c["plan"] = draw(st.lists(st.integers(1, 5), min_size=k, max_size=k))
    c["at"] = draw(st.integers(0, k - 1))
    c["who"] = draw(st.integers(0, k - 1))
    c["steps"] = draw(st.integers(1, 3))
    return c


def check_bad(c, ctx):
    env, names, A, calls = build(c, ctx)
    plan = list(c["plan"])
    if c["kind"] == "zero":
        plan[c["at"]] = 0
    elif c["kind"] == "negative":
        plan[c["at"]] = -2
    elif c["kind"] == "short":
        plan = plan[:-1]
    else:
        plan.append(1)
    ctx.nontrivial()
    ctx.label(c["kind"])
    ctx.expect_error(lambda: env.step_multi(names[c["who"]], c["steps"], n_moves_plan=plan, refit=True), "planning moves %s for %d agents" % (plan, len(names)))
    for x in names:
        require(len(env.get_agent_position_history(x)) == 1, "a refused run moved {0}", x)


SUBS = [Sub("layout", strat_fn, check_fn, 1500, 20000), Sub("refitting_runs", lambda tier: strat_run(tier), check_run, 400, 6000),
        Sub("interactive_runs", lambda tier: strat_inter(tier), check_inter, 150, 2000), Sub("rejected", lambda tier: strat_bad(tier), check_bad, 60, 400)]
