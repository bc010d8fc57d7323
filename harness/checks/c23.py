from core import *
from gens import *
import warnings
import numpy as np
from hypothesis import strategies as st
from checks.c21 import expected_sas, walk
from checks.c09 import soft_fixed_point
import refs

RULE = ("cases are a world, a collection of trajectories in it, ignored features, learner settings and a sequence of fits and resets; non-trivial: at least two "
        "features of which one is present somewhere, and at least two trajectories or three moves")
ASSUMPTIONS = ["trajectories are non-empty", "value iteration limits suffice for convergence (discount at most 0.8)",
               "policy-expected counts are those of VI_max_iter steps from the observed starting states, as documented for the visitation iterator",
               "hypothesis testing with z-scores (relative normalisation is explicitly not implemented); values that are equal only up to rounding are not compared",
               "with the greedy policy only cases without tied actions are compared"]


def gen_traj(min_t=1, max_t=4):
    return st.lists(st.tuples(raw, paths(st.one_of(st.lists(raw, max_size=6), st.lists(raw, min_size=2, max_size=6)))).map(list), min_size=min_t, max_size=max_t)


def trajectories(sas, ts):
    n = sas.shape[0]
    live = [s for s in range(n) if sas[s].any()] or [0]
    return [walk(sas, live[s % len(live)], steps)[0] for s, steps in ts]


@st.composite
def worlds(draw, stochastic=True, max_states=9):
    if draw(bools(6)):
        return draw(grid_worlds(max_states=max_states, max_side=4, min_states=2, n_feat=(2, 4)))
    return draw(table_worlds(max_states=5, max_actions=3, n_feat=(2, 4), stochastic=stochastic))


def snap(mdp):
    return [np.array(mdp.features, copy=True), np.array(mdp.sas, copy=True), np.array(mdp.walls, copy=True)]


def unchanged(mdp, s):
    for a, b, what in zip(s, snap(mdp), ("features", "transitions", "walls")):
        require(np.array_equal(a, b), "inference changed the world's {0}", what)


def still(kept, ret, got):
    """weights returned by earlier fits stay as they were"""
    for x, then in kept:
        require(np.array_equal(x, then), "weights returned earlier have changed from {0} to {1}", then.tolist(), np.asarray(x).tolist())
    kept.append((ret, got))


def rich(F, tr):
    return F.shape[0] > 1 and F.any() and (len(tr) > 1 or sum(len(t) - 1 for t in tr) > 2)


# ---------------------------------------------------------------- feature matching
@st.composite
def strat_fm(draw, tier):
    ws = draw(st.lists(worlds(), min_size=1, max_size=3))
    return dict(worlds=ws, ts=draw(gen_traj()), ign=draw(st.lists(raw, max_size=2)), which=draw(st.lists(raw, min_size=4, max_size=4)), single=draw(st.booleans()))


def check_fm(c, ctx):
    from maMDP.algorithms.irl import MFFeatureMatching
    ctx.touched = True
    nf = len(c["worlds"][0]["features"])
    ws = [w for w in c["worlds"] if len(w["features"]) == nf]
    if c["single"]:
        ws = ws[:1]
    mdps = [build_world(w) for w in ws]
    tabs = [expected_sas(w) for w in ws]
    Fs = [build_features(w["features"], t.shape[0]) for w, t in zip(ws, tabs)]
    idx = [k % len(ws) for k in c["which"]][:len(c["ts"])]
    tr = [trajectories(tabs[i], [t])[0] for i, t in zip(idx, c["ts"])]
    ign = sorted({k % nf for k in c["ign"]})
    exp = np.zeros(nf)
    for i, t in zip(idx, tr):
        for s in t[1:]:
            exp += Fs[i][:, s]
    exp[ign] = 0
    s0 = [snap(m) for m in mdps]
    arg = mdps[0] if c["single"] else [mdps[i] for i in idx]
    got = MFFeatureMatching().fit(arg, [list(t) for t in tr], **({} if not ign and c["which"][0] % 2 else dict(ignore_features=ign)))
    got = np.asarray(got, dtype=float)
    require(got.shape == (nf,) and np.allclose(got, exp, atol=1e-9), "feature counts {0} for {1}, expected {2} (ignored: {3})", got.tolist(), tr, exp.tolist(), ign)
    for m, s in zip(mdps, s0):
        unchanged(m, s)
    ctx.nontrivial(rich(np.concatenate(Fs, axis=1), tr))
    ctx.label("ignored" if ign else "all features", "one world" if c["single"] else "list of worlds")


# ---------------------------------------------------------------- maximum entropy
@st.composite
def strat_me(draw, tier):
    w = draw(worlds())
    nf = len(w["features"])
    soft = draw(bools(8))
    ops = draw(st.lists(st.sampled_from(["fit", "fit", "fit", "reset", "rate"]), max_size=3)) + ["fit"]
    short = draw(bools(2))
    if short and draw(bools(8)):      # two features dividing the world between them: errors of opposite sign
        for r in w["features"]:
            r["fill"], r["cells"] = 0, [] if r is not w["features"][0] else [[x, 1] for x, _ in r["cells"]]
        w["features"][1] = dict(fill=1, cells=[[x, 0] for x, _ in w["features"][0]["cells"]])
    return dict(w=w, ts=draw(gen_traj()), ts2=draw(gen_traj()), ign=draw(st.lists(raw, max_size=2)), soft=soft,
                theta=draw(st.one_of(st.none(), st.lists(weights.map(lambda v: v / 4), min_size=nf, max_size=nf))), whole=draw(bools(2)),
                lr=draw(st.sampled_from([0.001, 0.003, 0.01])), decay=draw(st.sampled_from([0, 1, 2, 0.5])), iters=draw(st.integers(1, 4)) if soft else 1,
                vi=1 if short else draw(st.sampled_from([60, 80, 120])), tol=draw(st.sampled_from([1e-8, 1e-8, 0.02, 0.1, 0.3, 1])) if short else 1e-8, discount=draw(st.sampled_from([0.3, 0.5, 0.7])), ops=ops, perm=draw(raw), rep=draw(st.integers(2, 3)), defaults=draw(bools(5)), bar=draw(bools(2)))


def policy(sas, F, theta, g, soft):
    rs = theta @ F
    if soft:
        V, Q = soft_fixed_point(sas, rs, g, 1e-12)
    else:
        V, Q = refs.solve_optimal(sas, rs, g)
    n, m, _ = sas.shape
    avail = sas.sum(axis=2) > 0
    P = np.zeros((n, m))
    for s in range(n):
        if not avail[s].any():
            continue
        q = np.where(avail[s], Q[s], -np.inf)
        if soft:
            e = np.exp(q - q.max())
            P[s] = e / e.sum()
        else:
            best = np.where(q > q.max() - 1e-6)[0]
            if len(best) > 1:
                return None
            P[s, best[0]] = 1
    return P


def me_reference(sas, F, tr, theta, ign, c):
    n = sas.shape[0]
    emp = np.zeros(n)
    p0 = np.zeros(n)
    for t in tr:
        for s in t:
            emp[s] += 1.0 / len(t) / len(tr)
        p0[t[0]] += 1.0 / len(tr)
    theta = theta.copy()
    theta[ign] = 0
    for i in range(c["iters"]):
        P = policy(sas, F, theta, c["discount"], c["soft"])
        if P is None:
            return None
        M = np.einsum("sa,sat->st", P, sas)
        d, D = p0.copy(), np.zeros(n)
        for _ in range(c["vi"]):
            D += d
            d = d @ M
        err = F @ emp - F @ D
        err[ign] = 0
        theta += c["lr"] * float(i + 1) ** -float(c["decay"]) * err
        if abs(np.abs(err).mean() - c["tol"]) < 1e-6 * c["tol"]:
            return None
        if np.abs(err).mean() < c["tol"]:
            break
    return theta, np.abs(err).mean()


def check_me(c, ctx):
    from maMDP.algorithms.irl import MaxCausalEntIRL
    ctx.touched = True
    w = c["w"]
    mdp = build_world(w)
    sas = expected_sas(w)
    F = build_features(w["features"], sas.shape[0])
    nf = F.shape[0]
    ign = sorted({k % nf for k in c["ign"]})
    th0 = None if c["theta"] is None else np.array(c["theta"], dtype=float)
    if th0 is not None and c["whole"]:
        th0 = np.round(th0 * 2).astype(int)
    given = None if th0 is None else th0.copy()
    kw = dict(learning_rate=c["lr"], decay=c["decay"], max_iter_irl=c["iters"], VI_discount=c["discount"], VI_max_iter=c["vi"], soft=c["soft"], tol=c["tol"])
    fitkw = {} if c["bar"] else dict(show_progress=False)
    if ign or not c["defaults"]:
        fitkw["ignore_features"] = tuple(ign)
    new = lambda: MaxCausalEntIRL(theta=given, **kw)
    L = new()
    sets = [trajectories(sas, c["ts"]), trajectories(sas, c["ts2"])]
    start = np.zeros(nf) if th0 is None else th0.astype(float)
    theta = start.copy()
    s0 = snap(mdp)
    k = 0
    history = []
    kept = []
    for op in c["ops"]:
        if op == "reset":
            L.reset()
            theta = start.copy()
        elif op == "rate":
            L.reset_learning_rate()
        else:
            tr = sets[k % 2]
            k += 1
            nxt = me_reference(sas, F, tr, theta, ign, c)
            if nxt is None or not np.isfinite(nxt[0]).all():
                ctx.label("tied actions or borderline error, not compared")
                return
            nxt, left = nxt
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                ret = L.fit(mdp, [list(t) for t in tr], **fitkw)
            got = np.array(ret, dtype=float, copy=True)
            still(kept, ret, got)
            said = [str(x.message) for x in caught if "converge" in str(x.message)]
            if not 1e-10 < left < 1e-6:
                require(bool(said) == (left >= c["tol"]), "remaining error {0}, {1}", left, "but a warning that the solver did not converge" if said else "but no warning that the solver did not converge")
                ctx.label("converged" if left < c["tol"] else "did not converge", "loose tolerance" if c["tol"] > 1e-8 else "tight tolerance")
            unchanged(mdp, s0)
            if given is not None:
                require(np.array_equal(given, th0), "the initial weights supplied were changed to {0}", given.tolist())
            history.append("fit")
            scale = 1 + np.abs(nxt).max()
            require(got.shape == (nf,), "weights of shape {0}", got.shape)
            require((got[ign] == 0).all(), "ignored features {0} have weights {1}", ign, got.tolist())
            require(np.allclose(got, nxt, rtol=1e-5, atol=2e-6 * scale), "weights {0} after {1} from trajectories {2}, expected {3} (ignored: {4})", got.tolist(), history, tr, nxt.tolist(), ign)
            theta = got
            continue
        history.append(op)
    # order and repetition of the whole collection do not matter; nor does what an ignored feature holds
    tr = sets[0]
    base = np.array(new().fit(mdp, [list(t) for t in tr], **fitkw), dtype=float)
    rng = np.random.RandomState(c["perm"] % 2 ** 31)
    other = [list(tr[i]) for i in rng.permutation(len(tr))] * c["rep"]
    again = np.array(new().fit(mdp, other, **fitkw), dtype=float)
    require(np.allclose(base, again, rtol=1e-5, atol=1e-6 * (1 + np.abs(base).max())), "weights {0} from {1}, but {2} from the same trajectories {3}", base.tolist(), tr, again.tolist(), other)
    if ign and c["soft"]:
        from maMDP.mdp import MDP
        F2 = F.copy()
        F2[ign] = rng.randint(0, 3, size=(len(ign), F.shape[1]))
        third = np.array(new().fit(MDP(F2, sas), [list(t) for t in tr], **fitkw), dtype=float)
        require(np.allclose(base, third, rtol=1e-5, atol=1e-6 * (1 + np.abs(base).max())), "weights {0} become {1} when only the ignored features {2} of the world differ", base.tolist(), third.tolist(), ign)
        ctx.label("ignored features varied")
    ctx.nontrivial(rich(F, tr))
    ctx.label("soft" if c["soft"] else "greedy", "%d fits" % min(k, 3), "ignored" if ign else "all features")


# ---------------------------------------------------------------- hypothesis testing
@st.composite
def strat_ht(draw, tier):
    kind, selft, shape = draw(st.sampled_from(["square", "hex"])), draw(st.booleans()), draw(shapes(9, 4, 4))
    nf = draw(st.sampled_from([2, 1, 2, 3]))
    table = draw(sas_tables(5, 4, stochastic=draw(bools(7)), min_states=2)) if draw(bools(3)) else None
    ws = []
    for _ in range(draw(st.integers(1, 2))):
        F = draw(feature_rows(nf, nf, feature_values, 5))
        if table:
            ws.append(dict(table, features=F, seed=0, how=0))
        else:
            ws.append(dict(world=kind, shape=shape, selft=selft, walls=draw(st.one_of(st.just([]), st.lists(raw, max_size=3))), features=F))
    ops = draw(st.lists(st.sampled_from(["fit", "fit", "reset"]), max_size=3)) + ["fit"]
    t = st.tuples(raw, paths(st.one_of(st.lists(raw, min_size=1, max_size=5), st.lists(raw, min_size=1, max_size=5), st.lists(raw, max_size=2)))).map(list)
    return dict(worlds=ws, single=draw(st.booleans()), ts=draw(st.lists(t, min_size=1, max_size=3)), ts2=draw(st.lists(t, min_size=1, max_size=2)), which=draw(st.lists(raw, min_size=3, max_size=3)),
                ign=draw(st.one_of(st.just([]), st.lists(raw, max_size=1))), soft=draw(st.booleans()), theta=draw(st.one_of(st.none(), st.lists(weights.map(lambda v: v / 4), min_size=nf, max_size=nf))),
                lr=draw(st.sampled_from([0.3, 0.1, 0.5])), decay=draw(st.sampled_from([0, 1, 2, 0.5])), asym=draw(st.sampled_from([2, 1.5, 3])), discount=draw(st.sampled_from([0.5, 0.8, 0.7])), ops=ops, bar=draw(bools(2)))


def check_ht(c, ctx):
    from maMDP.algorithms.irl import HyptestIRL
    ctx.touched = True
    ws = c["worlds"][:1] if c["single"] else c["worlds"]
    mdps = [build_world(w) for w in ws]
    tabs = [expected_sas(w) for w in ws]
    n = tabs[0].shape[0]
    Fs = [build_features(w["features"], n) for w in ws]
    nf = Fs[0].shape[0]
    if not all(t.any() for t in tabs):
        return                                      # nothing can be observed in a world without any action
    ign = sorted({k % nf for k in c["ign"]})
    th0 = None if c["theta"] is None else np.array(c["theta"], dtype=float)
    given = None if th0 is None else th0.copy()
    L = HyptestIRL(learning_rate=c["lr"], decay=c["decay"], theta=given, asymmetry=c["asym"], VI_discount=c["discount"], VI_max_iter=400, tol=1e-10, soft=c["soft"], normalisation="z-score")
    start = np.zeros(nf) if th0 is None else th0.copy()
    Qs = []
    for sas, F in zip(tabs, Fs):
        per = []
        for f in range(nf):
            rs = F[f]
            per.append((soft_fixed_point(sas, rs, c["discount"], 1e-13) if c["soft"] else refs.solve_optimal(sas, rs, c["discount"]))[1])
        Qs.append(np.stack(per, axis=-1))
    sure = np.ones(nf, dtype=bool)
    theta = start.copy()
    slack = np.full(nf, 1e-6)
    k, compared = 0, 0
    kept = []
    s0 = [snap(m) for m in mdps]
    for op in c["ops"]:
        if op == "reset":
            L.reset()
            theta = start.copy()
            sure[:] = True
            slack[:] = 1e-6
            continue
        ts = c["ts"] if k % 2 == 0 else c["ts2"]
        k += 1
        idx = [x % len(ws) for x in c["which"]][:len(ts)]
        tr = [trajectories(tabs[i], [t])[0] for i, t in zip(idx, ts)]
        theta[ign] = 0
        cnt = 1
        for i, t in zip(idx, tr):
            for a, b in zip(t, t[1:]):
                act = int(tabs[i][a, :, b].argmax())
                tied = np.where(tabs[i][a, :, b] > tabs[i][a, act, b] - 1e-9)[0]
                if np.abs(Qs[i][a][tied] - Qs[i][a, act]).max() > 1e-9:
                    sure[:] = False                 # which action was observed is undefined
                    ctx.label("ambiguous action")
                av = np.where(tabs[i][a].any(axis=1))[0]
                q = Qs[i][a][av]
                sd, mu = q.std(axis=0), q.mean(axis=0)
                for f in range(nf):
                    if f in ign or not sure[f]:
                        continue
                    if len(av) == 1 or (not Fs[i][f].any() and not c["soft"]):
                        R = 0.0                     # exactly equal values: no evidence about this feature
                        ctx.label("no evidence")
                    elif sd[f] < 1e-3:
                        sure[f] = False             # equal up to rounding: the sign of the evidence is undefined
                        ctx.label("undefined z-score")
                        continue
                    else:
                        R = (Qs[i][a, act, f] - mu[f]) / sd[f]
                    lr = c["lr"]
                    if c["decay"] > 0:
                        gap = abs(R) - abs(theta[f])
                        if abs(R - theta[f]) < 1e-12:
                            continue
                        if abs(gap) < 1e-4:
                            sure[f] = False
                            ctx.label("undecided confirmation")
                            continue
                        lr = (lr * c["asym"] if gap < 0 else lr / c["asym"]) * float(cnt) ** -float(c["decay"])
                    theta[f] += lr * (R - theta[f])
                cnt += 1
        arg = mdps[0] if c["single"] else [mdps[i] for i in idx]
        ret = L.fit(arg, [list(t) for t in tr], ignore_features=tuple(ign), **({} if c["bar"] else dict(show_progress=False)))
        got = np.array(ret, dtype=float, copy=True)
        still(kept, ret, got)
        for m, s in zip(mdps, s0):
            unchanged(m, s)
        if given is not None:
            require(np.array_equal(given, th0), "the initial weights supplied were changed to {0}", given.tolist())
        require(got.shape == (nf,), "weights of shape {0}", got.shape)
        require((got[ign] == 0).all(), "ignored features {0} have weights {1}", ign, got.tolist())
        require(np.isfinite(got).all(), "weights {0} after fit {1} to {2}", got.tolist(), k, tr)
        for f in range(nf):
            if sure[f] and f not in ign:
                compared += 1
                require(abs(got[f] - theta[f]) <= 1e-4 * (1 + abs(theta[f])), "weight of feature {0} after fit {1} to {2} is {3}, expected {4}", f, k, tr, got[f], theta[f])
                theta[f] = got[f]
    ctx.nontrivial(compared > 0 and (nf > 1 or k > 1))
    ctx.label("stochastic" if any(((t > 0) & (t < 1)).any() for t in tabs) else "deterministic")
    ctx.label("compared" if compared else "not compared", "soft" if c["soft"] else "greedy", "decay" if c["decay"] else "no decay", "ignored" if ign else "all features")


# ---------------------------------------------------------------- evidence that cannot be used
@st.composite
def strat_bad(draw, tier):
    w = draw(st.one_of(grid_worlds(max_states=9, max_side=3, min_states=2, n_feat=(1, 2)), table_worlds(max_states=5, max_actions=3, n_feat=(1, 2), min_states=2)))
    return dict(w=w, ts=draw(gen_traj(1, 3)), how=draw(st.sampled_from(["too many worlds", "too few worlds", "not adjacent", "not adjacent"])), learner=draw(st.sampled_from(["matching", "hypotheses"])), at=draw(raw), jump=draw(raw))


def spoil(sas, tr, at, jump):
    """insert a move between states that are not adjacent somewhere, or None"""
    far = np.argwhere(~sas.any(axis=1))
    if not len(far):
        return None
    a, b = (int(x) for x in far[jump % len(far)])
    tr = [list(t) for t in tr]
    tr[at % len(tr)] = [a, b]
    return tr


def check_bad(c, ctx):
    from maMDP.algorithms.irl import MFFeatureMatching, HyptestIRL
    ctx.touched = True
    mdp, sas = build_world(c["w"]), expected_sas(c["w"])
    tr = trajectories(sas, c["ts"])
    s0 = snap(mdp)
    L = MFFeatureMatching() if c["learner"] == "matching" else HyptestIRL(normalisation="z-score", VI_discount=0.7)
    kw = {} if c["learner"] == "matching" else dict(show_progress=False)
    if c["how"] == "not adjacent":
        bad = spoil(sas, tr, c["at"], c["jump"])
        if bad is None or c["learner"] == "matching":        # feature matching only looks at the states
            return
        arg = mdp
    else:
        bad = [list(t) for t in tr]
        arg = [mdp] * (len(tr) + (1 if c["how"] == "too many worlds" else -1))
    ctx.nontrivial()
    ctx.label(c["how"], c["learner"])
    ctx.expect_error(lambda: L.fit(arg, bad, **kw), "%s (%s): %d worlds, trajectories %s" % (c["how"], c["learner"], len(arg) if isinstance(arg, list) else 1, bad))
    unchanged(mdp, s0)


SUBS = [Sub("feature_matching", lambda tier: strat_fm(tier), check_fm, 250, 4000), Sub("maximum_entropy", lambda tier: strat_me(tier), check_me, 200, 2000),
        Sub("hypothesis_testing", lambda tier: strat_ht(tier), check_ht, 180, 2000),
        Sub("unusable_evidence", lambda tier: strat_bad(tier), check_bad, 60, 500)]
