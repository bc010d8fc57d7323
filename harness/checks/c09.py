from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st
from checks.c08 import setup, interesting, labels, enough_iterations, discounts, pads, bools

RULE = ("cases are an MDP, reward weights (magnitudes from 1e-3 to 1e6, any sign) and a discount; non-trivial: at least 3 states, rewards "
        "not all equal, and an unavailable action, a dead end, a stochastic row or a negative reward is present")
ASSUMPTIONS = ["reward is received in the entered state", "the iteration limit suffices",
               "the equations are verified as residuals of the returned values and against an independently computed fixed point"]

soft_weights = st.one_of(st.integers(-3, 3), st.sampled_from([0.5, -0.5, 10, -10, 200, -200, 800, -800, 1e4, -1e4, 1e6, -1e6, 1e-3]))


@st.composite
def strat(draw, tier):
    if draw(bools(6)):
        w = draw(table_worlds(max_states=8 if tier == "quick" else 14, max_actions=5, n_feat=(1, 3)))
    else:
        w = draw(grid_worlds(max_states=30 if tier == "quick" else 60, max_side=7, n_feat=(1, 3)))
    return dict(w=w, reward=[draw(soft_weights) for _ in w["features"]], pad=draw(pads), discount=draw(discounts), tol=draw(st.sampled_from([1e-8, 1e-6, 1e-9])))


def lse(x):
    x = np.asarray(x, dtype=np.longdouble)
    m = x.max()
    return float(m + np.log(np.sum(np.exp(x - m))))


def soft_fixed_point(sas, rs, g, tol):
    n = sas.shape[0]
    avail = sas.sum(axis=2) > 0
    V = np.zeros(n)
    ER = sas @ rs
    for _ in range(200000):
        Q = ER + g * (sas @ V)
        Qm = np.where(avail, Q, -np.inf)
        m = np.where(avail.any(axis=1), Qm.max(axis=1), 0)
        with np.errstate(all="ignore"):
            new = np.where(avail.any(axis=1), m + np.log(np.where(avail, np.exp(Q - m[:, None]), 0).sum(axis=1)), 0)
        new = np.where(avail.any(axis=1), new, 0)
        d = np.abs(new - V).max()
        V = new
        if d < tol:
            return V, Qm
    raise AssertionError("reference did not converge")


def check(c, ctx):
    from maMDP.algorithms.dynamic_programming import solve_value_iteration
    n, F, sas, r = setup(dict(c, intreward=False))
    g = c["discount"]
    rs = r @ F
    labels(ctx, sas, rs)
    ctx.label("huge" if np.abs(rs).max() > 700 else "moderate", "discount %s" % g)
    ctx.nontrivial(interesting(sas, rs))
    avail = sas.sum(axis=2) > 0
    scale = 1 + np.abs(rs).max() / (1 - g)
    tol = max(c["tol"], 1e-13 * scale)
    F, sas = as_given(F, c["w"].get("how", 0)), as_given(sas, c["w"].get("how", 0))
    F1, s1, r1 = F.copy(), sas.copy(), r.copy()
    ctx.touched = True
    V, Q = solve_value_iteration(r, F, 2 * enough_iterations(np.abs(rs).max() + 3, g, tol), g, sas, tol, True)
    V, Q = np.asarray(V), np.asarray(Q)
    require(np.array_equal(F, F1) and np.array_equal(sas, s1) and np.array_equal(r, r1), "solver modified its inputs")
    require(V.shape == (n,) and Q.shape == avail.shape, "shapes {0} {1}", V.shape, Q.shape)
    require(np.all(np.isfinite(V)), "values not finite: {0}", V.tolist() if n < 20 else "")
    require(np.all(np.isneginf(Q[~avail])), "an unavailable action has a value other than -inf")
    require(np.all(np.isfinite(Q[avail])), "an available action's value is not finite")
    eps = 3 * tol / (1 - g) + 1e-9 * scale
    Qx = sas @ (rs + g * V)
    for s in range(n):
        if not avail[s].any():
            require(V[s] == 0, "state {0} has no action but value {1}", s, V[s])
            continue
        e = lse(Q[s, avail[s]])
        require(abs(V[s] - e) <= eps, "value of state {0} is {1}, log-sum-exp of its action values is {2}", s, V[s], e)
        d = np.abs(Qx[s] - Q[s])[avail[s]]
        require(d.max() <= eps, "action values of state {0} are {1}, expected reward plus discounted value gives {2}", s, Q[s].tolist(), Qx[s].tolist())
    Vr, Qr = soft_fixed_point(sas, rs, g, tol)
    require(np.abs(V - Vr).max() <= 2 * eps, "values differ from the fixed point by {0}", np.abs(V - Vr).max())


SUBS = [Sub("equations", lambda tier: strat(tier), check, 500, 5000)]
