from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st
from checks.c21 import expected_sas, walk
from checks.c23 import spoil

RULE = ("cases are worlds with the same actions, trajectories in them, settings of the learner and a sequence of fits and resets; non-trivial: at least three "
        "observed actions, and a second trajectory, a decay, a kernel, an initial estimate or a reset before a fit")
ASSUMPTIONS = ["all worlds of a fit have the same number of actions", "each fit has at least one trajectory (possibly empty)",
               "the angular kernel is exp(-(d^2 / 2) * ls^2) of the angle d between actions spread evenly over 360 degrees"]


@st.composite
def strat(draw, tier):
    if draw(st.booleans()):
        kind, selft = draw(st.sampled_from(["square", "hex"])), draw(st.booleans())
        worlds = []
        for _ in range(draw(st.integers(1, 3))):
            w = draw(grid_worlds(max_states=16, max_side=4, min_states=2, kinds=(kind,), walls=False, n_feat=(1, 1), n_cells=1))
            w["selft"] = selft
            worlds.append(w)
    else:
        m = draw(st.integers(1, 5))
        worlds = []
        for _ in range(draw(st.integers(1, 3))):
            w = draw(table_worlds(max_states=4, max_actions=1, stochastic=False, n_feat=(1, 1), dead=False))
            w["m"] = m
            w["T"] = [[[[draw(raw), 1]] for _ in range(m)] for _ in range(w["n"])]
            worlds.append(w)
    traj = st.tuples(st.integers(0, 2), raw, paths(st.one_of(st.lists(raw, max_size=6), st.lists(raw, min_size=2, max_size=12)), (20, 60))).map(list)
    empty = st.tuples(st.integers(0, 2), raw, st.none()).map(list)
    fits = st.tuples(st.just("fit"), st.lists(st.one_of(traj, traj, traj, empty), min_size=1, max_size=4)).map(list)
    ops = draw(st.lists(st.one_of(fits, fits, fits, st.just(["reset", []]), st.just(["copy", []])), max_size=5)) + [draw(fits)]
    decay = draw(st.one_of(st.sampled_from([0, 0.5, 1, 2, 0.1, 1.0]), st.floats(0, 3)))
    m = 4 + worlds[0]["selft"] if worlds[0]["world"] == "square" else 6 + worlds[0]["selft"] if worlds[0]["world"] == "hex" else worlds[0]["m"]
    Q = draw(st.one_of(st.none(), st.lists(weights, min_size=m, max_size=m)))
    return dict(worlds=worlds, ops=ops, lr=draw(st.one_of(st.sampled_from([0.3, 0.1, 0.5, 1]), st.floats(0.01, 1))), decay=decay, Q=Q, intQ=draw(bools(3)),
                kernel=draw(st.booleans()), ls=draw(st.sampled_from([0.02, 0.02, 0.01, 0.1, 1])), defaults=draw(bools(2)), single=draw(bools(3)))


def target(a, m, kernel, ls):
    if not kernel:
        t = np.zeros(m)
        t[a] = 1
        return t
    t = np.zeros(m)
    for b in range(m):
        d = abs(a - b) * 360.0 / m
        d = min(d, 360.0 - d)
        t[b] = np.exp(-(d * d / 2.0) * ls ** 2)
    return t


def check(c, ctx):
    from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
    ctx.touched = True
    mdps = [build_world(w) for w in c["worlds"]]
    tabs = [expected_sas(w) for w in c["worlds"]]
    m = tabs[0].shape[1]
    Q0 = None
    if c["Q"] is not None:
        whole = all(float(v) == int(v) for v in c["Q"])
        Q0 = np.array([int(v) for v in c["Q"]] if c["intQ"] and whole else c["Q"], dtype=int if c["intQ"] and whole else float)
        ctx.label("whole initial values" if Q0.dtype == int else "initial values")
    given = None if Q0 is None else Q0.copy()
    if c["defaults"] and given is None:
        kw, lr, decay, kernel, ls = {}, 0.3, 0.5, False, 0.02
    else:
        lr, decay, kernel, ls = c["lr"], c["decay"], c["kernel"], c["ls"]
        kw = dict(learning_rate=lr, decay=decay, Q=given, kernel=kernel, ls=ls)
    new = lambda: TDGeneralPolicyLearner(**kw)
    learner = new()
    Q = None if Q0 is None else Q0.astype(float)
    total, fits, resets, trajs = 0, 0, 0, 0
    history = []
    kept = []          # what was returned earlier, and learners that were copied: neither may change later
    for op, arg in c["ops"]:
        if op == "reset":
            learner.reset()
            Q = None if Q0 is None else Q0.astype(float)
            resets += fits > 0
            history.append("reset")
            continue
        if op == "copy":
            if fits:
                kept.append((learner.get_q_values(0), np.array(learner.get_q_values(0), copy=True), learner))
            learner = learner.copy()
            continue
        ms, ts = [], []
        for wi, start, steps in arg:
            i = 0 if c["single"] else wi % len(mdps)
            ms.append(i)
            ts.append([] if steps is None else walk(tabs[i], int(start % tabs[i].shape[0]), steps)[0])
        one = len(set(ms)) == 1 and c["single"]
        if Q is None:
            Q = np.zeros(m)
        k = 1
        for i, t in zip(ms, ts):
            for s, s2 in zip(t, t[1:]):
                p = tabs[i][s, :, s2]
                a = int(np.argmax(p))
                if (p == p[a]).sum() > 1:      # several actions do the same: whichever the world recovers (see C21)
                    a = int(mdps[i]._trajectory_to_state_action([s, s2])[0, 1])
                    ctx.label("ambiguous action")
                Q = Q + lr * float(k) ** -float(decay) * (target(a, m, kernel, ls) - Q)
                k += 1
                total += 1
            trajs += len(t) > 1
        copies = [list(t) for t in ts]
        learner.fit(mdps[ms[0]] if one else [mdps[i] for i in ms], ts)
        fits += 1
        history.append(ts)
        require(ts == copies, "the trajectories were changed")
        if given is not None:
            require(np.array_equal(given, Q0), "the initial values supplied were changed to {0}", given.tolist())
        for s in (0, 1):
            got = np.asarray(learner.get_q_values(s), dtype=float)
            require(got.shape == (m,) and np.allclose(got, Q, rtol=1e-8, atol=1e-10), "estimate {0} after {1}, expected {2}", got.tolist(), history, Q.tolist())
        kept.append((learner.get_q_values(0), np.array(learner.get_q_values(0), copy=True), None))
        for now, then, source in kept:
            require(np.array_equal(now, then), "an estimate returned earlier has changed from {0} to {1}", then.tolist(), np.asarray(now).tolist())
            if source is not None:
                ctx.label("copied")
                require(np.array_equal(source.get_q_values(0), then), "fitting a copy changed the original's estimate from {0} to {1}", then.tolist(), np.asarray(source.get_q_values(0)).tolist())
    ctx.nontrivial(total > 2 and (trajs > 1 or decay > 0 or kernel or Q0 is not None or resets))
    ctx.label("kernel" if kernel else "one-hot", "decay" if decay else "no decay", "reset" if resets else "no reset", "%d fits" % min(fits, 3))


@st.composite
def strat_bad(draw, tier):
    w = draw(st.one_of(grid_worlds(max_states=9, max_side=3, min_states=2, n_feat=(1, 1)), table_worlds(max_states=5, max_actions=3, n_feat=(1, 1), min_states=2)))
    ts = draw(st.lists(st.tuples(raw, st.lists(raw, max_size=4)).map(list), min_size=1, max_size=3))
    return dict(w=w, ts=ts, how=draw(st.sampled_from(["too many worlds", "too few worlds", "not adjacent", "not adjacent"])), at=draw(raw), jump=draw(raw))


def check_bad(c, ctx):
    from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
    ctx.touched = True
    mdp, sas = build_world(c["w"]), expected_sas(c["w"])
    tr = [walk(sas, int(s % sas.shape[0]), steps)[0] for s, steps in c["ts"]]
    if c["how"] == "not adjacent":
        arg, bad = mdp, spoil(sas, tr, c["at"], c["jump"])
        if bad is None:
            return
    else:
        arg, bad = [mdp] * (len(tr) + (1 if c["how"] == "too many worlds" else -1)), tr
    ctx.nontrivial()
    ctx.label(c["how"])
    ctx.expect_error(lambda: TDGeneralPolicyLearner().fit(arg, bad), "%s: %d worlds, trajectories %s" % (c["how"], len(arg) if isinstance(arg, list) else 1, bad))


SUBS = [Sub("delta_rule", lambda tier: strat(tier), check, 600, 8000), Sub("unusable_evidence", lambda tier: strat_bad(tier), check_bad, 60, 500)]
