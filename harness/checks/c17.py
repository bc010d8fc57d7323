from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st
from checks.c12 import fix_starts
from checks.c14 import search_worlds, nonneg_consumed

RULE = ("cases are an environment, agents with different planners and a sequence of fits, moves and faulty plug-ins; non-trivial: at least two fits, "
        "by agents of which at least one searches, or a faulty plug-in after a successful fit")
ASSUMPTIONS = ["the number of environment steps is not part of the compared state"]


@st.composite
def strat(draw, tier):
    w = draw(search_worlds(tier, max_states=12))
    k = draw(upto(1, 3, 5))
    A = draw(agent_specs(k, len(w["features"]), algorithms=("vi", "mcts", "imcts", "null")))
    for a in A:
        if a["algorithm"] in ("mcts", "imcts"):
            a["mcts"] = dict(n_iter=draw(st.integers(1, 8)), n_steps=draw(st.integers(1, 4)), C=1, interactive=a["algorithm"] == "imcts",
                             caching=draw(st.booleans()), reset_cache=draw(st.booleans()))
            a["algorithm"] = "mcts"
    w = nonneg_consumed(w, A)
    ops = draw(st.lists(st.tuples(st.sampled_from(["fit", "fit", "fit", "fit", "fitplan", "refit", "step", "proba", "plug"]), st.integers(0, k - 1), raw).map(list), min_size=2, max_size=8))
    return dict(w=w, agents=A, ops=ops)


def arr(x):
    return None if x is None else np.array(x, dtype=float, copy=True)


def eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def snapshot(env, mdp, names):
    s = {"features": arr(mdp.features), "transitions": arr(mdp.sas), "walls": arr(mdp.walls), "n_features": mdp.n_features, "n_states": mdp.n_states}
    for x in names:
        a = env.agents[x]
        s[x, "position"] = int(a.position)
        s[x, "history"] = [int(h) for h in env.get_agent_position_history(x)]
        s[x, "counts"] = arr(a.consumed)
        s[x, "reward weights"] = arr(a.reward_function)
        s[x, "consumes"] = list(a.consumes)
        s[x, "moves"] = a.n_moves
    return s


def plan_of(env, x):
    a = env.agents[x]
    alg = a.algorithm
    return dict(q=arr(alg.q_values), v=arr(alg.values), pi=arr(a.pi), pi_p=arr(a.pi_p), fit=bool(alg.fit_complete))


def same(a, b, what, skip=()):
    for key in a:
        if key in skip:
            continue
        x, y = a[key], b[key]
        ok = eq(x, y) if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) else x == y
        require(ok, "{0} changed {1}: {2} -> {3}", what, key, x.tolist() if isinstance(x, np.ndarray) else x, y.tolist() if isinstance(y, np.ndarray) else y)


def faulty(kind):
    from maMDP.algorithms.base import Algorithm

    class Faulty(Algorithm):
        mode = "good"

        def _fit(self, mdp, reward_function, position, n_moves, *args, **kwargs):
            n, m = mdp.n_states, mdp.n_actions
            v, q = np.full(n, 2.0), np.where(np.asarray(mdp.sas).sum(axis=2) > 0, 3.0, -np.inf)
            if self.mode == "good":
                return v, q
            return {"list values": (v.tolist(), q), "list actions": (v, q.tolist()), "2d values": (v[:, None], q), "1d actions": (v, q.ravel()), "3d actions": (v, q[None]),
                    "short values": (np.ones(n + 1), q), "short actions": (v, np.ones((n + 1, m))), "too many actions": (v, np.ones((n, m + 1))),
                    "none": (None, None), "scalar": (v, np.float64(1))}[self.mode]
    return Faulty


BAD = ["list values", "list actions", "2d values", "1d actions", "3d actions", "short values", "short actions", "too many actions", "none", "scalar"]


def check(c, ctx):
    from maMDP.environments import Environment
    w, A = fix_starts(c["w"], c["agents"])
    k = len(A)
    n = world_n_states(w)
    ctx.touched = True
    # the caller's own arrays
    if w["world"] == "table":
        from maMDP.mdp import MDP
        own = dict(features=as_given(build_features(w["features"], n), w.get("how", 0)), sas=as_given(build_sas(w), w.get("how", 0)))
        mdp = MDP(own["features"], own["sas"], seed=w.get("seed"))
    else:
        own = dict(features=as_given(build_features(w["features"], n), w.get("how", 0)), walls=wall_array(w["walls"], n))
        mdp = build_grid(w, features=own["features"], walls=own["walls"])
    names = agent_names(k)
    spec = {}
    for j, a in enumerate(A):
        own["reward%d" % j] = [float(x) for x in a["reward"]] if a["as_list"] else np.array(a["reward"], dtype=float)
        own["consumes%d" % j] = list(a["consumes"])
        spec[build_agent(names[j], a)] = (a["start"] % n, own["reward%d" % j], own["consumes%d" % j])
    keep = {key: (v.copy() if isinstance(v, np.ndarray) else list(v)) for key, v in own.items()}
    env = Environment(mdp, spec)
    before_keep = snapshot(env, mdp, names)
    fits = searches = faults = 0
    fitted = set()
    kept = []      # estimates handed out so far, and what they were
    for kind, i, arg in c["ops"]:
        nm = names[i]
        what = "%s of %s (%s)" % (kind, nm, A[i]["algorithm"])
        before = snapshot(env, mdp, names)
        plans = {x: plan_of(env, x) for x in names}
        if kind in ("fit", "fitplan", "refit"):
            if kind == "fitplan":
                env.fit(nm, n_moves=[[1 + (arg + j) % 2, (arg // 2 + j) % 3] for j in range(k)])
            else:
                seed_all(arg)
                env.fit(nm)
            after = snapshot(env, mdp, names)
            same(before, after, what)
            if kind == "refit":
                p1 = plan_of(env, nm)
                seed_all(arg)
                env.fit(nm)
                p2 = plan_of(env, nm)
                same(before, snapshot(env, mdp, names), what)
                for key in ("q", "v", "pi_p"):
                    require(eq(p1[key], p2[key]), "{0}: repeating the same fit changes {1}", what, key)
            for x in names:
                if x != nm:
                    same(plans[x], plan_of(env, x), "%s: plan of %s" % (what, x))
            fits += 1
            fitted.add(i)
            searches += A[i]["algorithm"] == "mcts"
        elif kind == "step":
            if i in fitted and np.isfinite(np.asarray(env.get_agent_q_values(nm))[env.agents[nm].position]).any():
                env.step(nm)
        elif kind == "proba":
            if i in fitted and np.isfinite(np.asarray(env.get_agent_q_values(nm))[env.agents[nm].position]).any():
                env.step_proba(nm)
                same(before, snapshot(env, mdp, names), what)
        elif kind == "plug":
            # swap in a plug-in planner which works once and then returns something malformed
            mode = BAD[arg % len(BAD)]
            alg = faulty(mode)()
            old = env.agents[nm].algorithm
            env.agents[nm].algorithm = alg
            env.fit(nm)
            good = plan_of(env, nm)
            alg.mode = mode
            ctx.expect_error(lambda: env.fit(nm), "plug-in returning %s" % mode)
            same(good, plan_of(env, nm), "a rejected fit (%s): plan of %s" % (mode, nm))
            same(before, snapshot(env, mdp, names), what)
            ctx.label("plug-in: " + mode)
            faults += 1
            env.agents[nm].algorithm = old
        if kind in ("fit", "fitplan", "refit"):
            for get, key in ((env.get_agent_q_values, "action values"), (lambda x: env.agents[x].algorithm.values, "state values")):
                v = get(nm)
                if isinstance(v, np.ndarray):
                    kept.append((v, v.copy(), "%s handed out after %s" % (key, what)))
        for v, was, which in kept:
            require(eq(v, was), "{0} later changed the {1}", what, which)
        for key, v in own.items():
            require(np.array_equal(v, keep[key]) if isinstance(v, np.ndarray) else v == keep[key], "{0} modified the caller's {1}", what, key)
    same({key: before_keep[key] for key in before_keep if isinstance(key, tuple) and key[1] in ("reward weights", "consumes", "moves")},
         snapshot(env, mdp, names), "the history")
    ctx.nontrivial((fits >= 2 and searches) or faults)
    ctx.label("%d agents" % k, "searching" if searches else "no search")


SUBS = [Sub("fits", lambda tier: strat(tier), check, 250, 3000)]
