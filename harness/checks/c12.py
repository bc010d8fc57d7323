from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are an environment of predators and prey and a run of moves; non-trivial: at least two moves asked for and, for interactive runs, "
        "at least two agents or turns")
ASSUMPTIONS = ["landing on an agent is judged by positions, whether or not the agent's indicator was consumed before",
               "the value returned by a run that stopped at a catch is not specified", "worlds where every reachable state has an action"]


@st.composite
def arenas(draw, tier, max_agents=4, min_agents=1, algorithms=("vi", "vi", "vi", "null", "mcts"), max_states=14):
    """environments without dead ends, in which predators chase prey"""
    if draw(bools(3)):
        w = draw(table_worlds(max_states=6, max_actions=3, stochastic=draw(st.booleans()), dead=False))
    else:
        w = draw(grid_worlds(max_states=max_states, max_side=5, min_states=2))
        w["selft"] = w["selft"] or bool(w["walls"])
    k = draw(upto(min_agents, max_agents, 6 if max_agents == 4 else None))
    A = draw(agent_specs(k, len(w["features"]), algorithms=algorithms))
    nf = len(w["features"])
    for i, a in enumerate(A):
        if k > 1 and draw(bools(6)):
            prey = draw(st.integers(0, k - 2))
            prey += prey >= i
            if nf + prey not in a["consumes"]:
                a["consumes"].append(nf + prey)
            if draw(bools(8)):
                a["reward"][nf + prey] = 5
        if a["algorithm"] == "mcts":
            a["mcts"] = dict(n_iter=3, n_steps=2, C=1, interactive=False)
    return dict(w=w, agents=A)


def fix_starts(w, A):
    """start every agent in a state without a wall (the walls are thinned if there is none)"""
    n = world_n_states(w)
    if w["world"] == "table":
        return w, A
    walls = wall_array(w["walls"], n)
    free = np.where(walls == 0)[0]
    if len(free) == 0:
        w = dict(w, walls=[])
        free = np.arange(n)
    return w, [dict(a, start=int(free[a["start"] % len(free)])) for a in A]


def recording(inner, log, env_box):
    """A selector plug-in choosing like `inner`, noting how far every agent has moved whenever a choice is asked for."""
    from maMDP.algorithms.action_selection import ActionSelector

    class Recording(ActionSelector):
        def _note(self):
            env = env_box[0]
            if env is not None:
                log.append(tuple(len(env.get_agent_position_history(x)) - 1 for x in env.agent_names))

        def _get_pi(self, q_values):
            self._note()
            return inner._get_pi(q_values)

        def _get_pi_p(self, q_values):
            self._note()
            return inner._get_pi_p(q_values)
    return Recording()


def build(c, ctx, rec=True):
    w, A = fix_starts(c["w"], c["agents"])
    log, box = [], [None]
    names = agent_names(len(A))
    objs = [build_agent(names[i], a) for i, a in enumerate(A)]
    if rec:
        for o in objs:
            o.action_selector = recording(o.action_selector, log, box)
    ctx.touched = True
    env, mdp, names = build_env(w, A, names=names, agent_objs=objs)
    box[0] = env
    return env, mdp, names, w, A, log, len(w["features"])


def free_states(w):
    """states an agent may be put in"""
    n = world_n_states(w)
    return np.arange(n) if w["world"] == "table" else np.where(wall_array(w["walls"], n) == 0)[0]


placements = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 3), raw).map(list), min_size=1, max_size=3))


def place(env, names, w, moves):
    free = free_states(w)
    for i, s in moves:
        env.set_agent_position(names[i % len(names)], int(free[s % len(free)]))


def walk(env, names, A, nf, sequence, base, pos, stop):
    """The moves that should have been made: `sequence` up to and including the first catch.  Landing places are taken from the
    agents' histories.  Returns (made, caught) or fails if a history is too short."""
    done = [0] * len(names)
    pos = list(pos)
    made = []
    for i in sequence:
        h = env.get_agent_position_history(names[i])
        j = base[i] + done[i]
        if j >= len(h):
            fail("agent {0} made {1} moves; the run should have gone on (moves made in order so far: {2})", names[i], done[i], made)
        pos[i] = int(h[j])
        done[i] += 1
        made.append(i)
        if stop and any(nf + o in A[i]["consumes"] and pos[o] == pos[i] for o in range(len(names)) if o != i):
            return made, True, done, pos
    return made, False, done, pos


@st.composite
def strat_one(draw, tier):
    c = draw(arenas(tier))
    k = len(c["agents"])
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["none", "int", "int", "list", "numpy", "tuple"]))
        steps = None
        if kind in ("int", "numpy"):
            steps = draw(st.integers(0, 6))
        elif kind in ("list", "tuple"):
            steps = [draw(st.integers(0, 5))] + [draw(st.integers(1, 4)) for _ in range(k - 1)]
        runs.append(dict(who=draw(st.integers(0, k - 1)), steps=steps, given=kind, refit=draw(st.booleans()), stop=draw(bools(6)), turns=draw(st.integers(1, 2)), place=draw(placements), bar=draw(bools(2))))
    c["runs"] = runs
    return c


def check_one(c, ctx):
    env, mdp, names, w, A, log, nf = build(c, ctx, rec=False)
    for r in c["runs"]:
        i = r["who"]
        place(env, names, w, r["place"])
        refit = r["refit"] or A[i]["algorithm"] == "mcts"
        if not refit:
            env.fit(names[i])
        base = [len(env.get_agent_position_history(x)) for x in names]
        pos = [int(env.agents[x].position) for x in names]
        want = r["steps"] if isinstance(r["steps"], int) else (A[i]["n_moves"] if r["steps"] is None else r["steps"][0])
        arg = list(r["steps"]) if isinstance(r["steps"], list) else r["steps"]
        if r["given"] in ("numpy", "tuple"):
            arg = np.int64(arg) if r["given"] == "numpy" else tuple(arg)
        kw = {} if arg is None else dict(n_steps=arg)
        if r["bar"]:
            kw["progressbar"] = True
        ret = env.step_multi(names[i], refit=refit, stop_on_caught=r["stop"], n_turns_plan=r["turns"], **kw)
        require(not isinstance(arg, list) or arg == r["steps"], "the caller's list of steps was modified")
        grown = [[int(x) for x in env.get_agent_position_history(x2)[b:]] for x2, b in zip(names, base)]
        made, caught, done, endpos = walk(env, names, A, nf, [i] * want, base, pos, r["stop"])
        for j, nm in enumerate(names):
            require(len(grown[j]) == done[j], "moving {0} by {1} (stop_on_caught={2}): {3} made {4} moves, expected {5}", names[i], r["steps"], r["stop"], nm, len(grown[j]), done[j])
        now = [int(env.agents[x].position) for x in names]
        require(now == endpos, "agents are at {0}, expected {1}", now, endpos)
        if not caught:
            require(isinstance(ret, (list, tuple, np.ndarray)) and [int(x) for x in ret] == grown[i], "moving {0} returned {1}, it entered {2}", names[i], ret, grown[i])
        ctx.nontrivial(want >= 2)
        ctx.label("caught" if caught else ("not caught" if r["stop"] else "not stopping"), "default steps" if r["steps"] is None else "given steps",
                  "caught early" if caught and len(made) < want else "to the end")


@st.composite
def strat_inter(draw, tier):
    c = draw(arenas(tier, algorithms=("vi", "vi", "vi", "null")))
    k = len(c["agents"])
    if draw(bools(4)):
        c["order"] = None
    else:
        perm = draw(st.permutations(list(range(k))))
        c["order"] = list(perm)[:draw(st.integers(1, k))]
        if draw(bools(2)):       # an agent may have several turns in the order
            c["order"].insert(draw(st.integers(0, len(c["order"]))), draw(st.sampled_from(c["order"])))
    m = k if c["order"] is None else len(c["order"])
    c["turns"] = draw(st.integers(1, 4))
    c["moves"] = draw(st.one_of(st.none(), st.lists(st.lists(st.integers(0, 3), min_size=c["turns"], max_size=c["turns"]), min_size=m, max_size=m)))
    c["tuples"] = draw(st.sampled_from([0, 1, 2]))
    c["plan"] = draw(st.one_of(st.none(), st.lists(st.integers(1, 4), min_size=k, max_size=k)))
    c["refit"] = draw(st.booleans())
    c["stop"] = draw(bools(6))
    c["again"] = draw(bools(3))
    c["bar"] = draw(bools(2))
    c["place"] = draw(placements)
    return c


def check_inter(c, ctx):
    env, mdp, names, w, A, log, nf = build(c, ctx)
    k = len(names)
    order = list(range(k)) if c["order"] is None else c["order"]
    if not c["refit"]:
        for i in order:
            env.fit(names[i])
    for rnd in range(2 if c["again"] else 1):
        place(env, names, w, c["place"])
        base = [len(env.get_agent_position_history(x)) for x in names]
        pos = [int(env.agents[x].position) for x in names]
        per = [[A[i]["n_moves"]] * c["turns"] for i in order] if c["moves"] is None else c["moves"]
        seq = [i for t in range(c["turns"]) for n, i in enumerate(order) for _ in range(per[n][t])]
        kw = {}
        if c["order"] is not None:
            kw["agent_names"] = [names[i] for i in order]
        if c["moves"] is None:
            kw["n_turns"] = c["turns"]
        else:
            kw["n_moves"] = tuple(tuple(x) for x in c["moves"]) if c["tuples"] == 1 else np.array(c["moves"]) if c["tuples"] else [list(x) for x in c["moves"]]
        if c["plan"] is not None:
            kw["n_moves_plan"] = tuple(c["plan"]) if c["tuples"] == 1 else np.array(c["plan"]) if c["tuples"] else list(c["plan"])
        del log[:]
        if c["bar"]:
            kw["progressbar"] = True
        env.step_multi_interactive(refit=c["refit"], stop_on_caught=c["stop"], **kw)
        if "n_moves" in kw:
            require([list(x) for x in kw["n_moves"]] == [list(x) for x in c["moves"]], "the caller's moves were modified")
        if "n_moves_plan" in kw:
            require(list(kw["n_moves_plan"]) == list(c["plan"]), "the caller's planning moves were modified")
        if "agent_names" in kw:
            require(kw["agent_names"] == [names[i] for i in order], "the caller's agent names were modified")
        made, caught, done, endpos = walk(env, names, A, nf, seq, base, pos, c["stop"])
        grown = [len(env.get_agent_position_history(x)) - b for x, b in zip(names, base)]
        for j, nm in enumerate(names):
            require(grown[j] == done[j], "{0} made {1} moves, expected {2} (order {3}, moves per turn {4}, stop {5}, caught {6})", nm, grown[j], done[j],
                    [names[i] for i in order], per, c["stop"], caught)
        now = [int(env.agents[x].position) for x in names]
        require(now == endpos, "agents are at {0}, expected {1}", now, endpos)
        # the order in which moves were made, as far as the plug-in saw it
        prefix = {0: tuple(b - 1 for b in base)}
        cur = list(prefix[0])
        for n, i in enumerate(made):
            cur[i] += 1
            prefix[n + 1] = tuple(cur)
        for v in log:
            n = sum(v) - sum(prefix[0])
            require(0 <= n <= len(made) and prefix[n] == v, "after {0} moves the agents had made {1}, expected {2} (order {3}, moves per turn {4})", n, v, prefix.get(n),
                    [names[i] for i in order], per)
        ctx.label("caught" if caught else "not caught", "caught early" if caught and len(made) < len(seq) else "to the end", "all agents" if c["order"] is None else "given order" if len(set(order)) == len(order) else "an agent named twice",
                  "default moves" if c["moves"] is None else "given moves", "refit" if c["refit"] else "no refit")
        ctx.nontrivial(len(seq) >= 2 and (len(order) > 1 or c["turns"] > 1))


def strat_unknown(tier):
    return arenas(tier, algorithms=("null",), max_agents=3)


def check_unknown(c, ctx):
    env, mdp, names, w, A, log, nf = build(c, ctx, rec=False)
    for x in names:
        env.fit(x)
    ctx.nontrivial()
    ctx.expect_error(lambda: env.step_multi_interactive(agent_names=names + ["nobody"], n_turns=1), "unknown agent in an interactive run")
    ctx.expect_error(lambda: env.step_multi("nobody", 1), "unknown agent")
    for x in names:
        require(len(env.get_agent_position_history(x)) == 1, "a refused run moved {0}", x)


SUBS = [Sub("one_agent", lambda tier: strat_one(tier), check_one, 220, 3000), Sub("interactive", lambda tier: strat_inter(tier), check_inter, 260, 4000),
        Sub("unknown", strat_unknown, check_unknown, 15, 100)]
