from core import *
from gens import *
import refs
import numpy as np
from scipy.stats import binom
from hypothesis import strategies as st

RULE = ("cases are a table of action values and a selection rule; non-trivial: at least 2 actions and some row has a tie, an unavailable "
        "(-inf) or a missing (NaN) entry, or values beyond 700 temperatures (where a naive exponential overflows)")
ASSUMPTIONS = ["rows with only NaN and -inf entries, at least one of them -inf, are left unspecified", "magnitudes up to 1e300",
               "frequencies are judged at a two-sided binomial tail of 1e-11 per action"]

levels = st.sampled_from([0, 0, 1, 1, 1, 2, -1, -1, 0.5, 1.5, -3, 10, 1e-3, -1e-3, 1e-9])
finite = st.one_of(levels, levels, st.floats(-10, 10, allow_nan=False), st.sampled_from([700, 710, -710, 750, 1e3, -1e3, 1e6, -1e6, 1e300, -1e300, 1e15]))
entry = st.one_of(finite, finite, finite, finite, st.sampled_from(["-inf", "nan"]))


@st.composite
def tables(draw, max_rows=6, max_cols=7, entries=None):
    m = draw(st.integers(1, max_cols))
    n = draw(st.integers(1, max_rows))
    rows = []
    for _ in range(n):
        kind = draw(st.integers(0, 9))
        if kind == 0:
            rows.append(["nan"] * m)
        elif kind <= 3:
            rows.append(draw(st.lists(levels, min_size=m, max_size=m)))
        else:
            rows.append(draw(st.lists(entries if entries is not None else entry, min_size=m, max_size=m)))
    return rows


temps = st.sampled_from([1, 1, 0.5, 2.0, 0.1, 10, 1e-3, 100.0, 0.01, 3, 1e-6, 1e6])


def to_array(rows):
    return np.array([[float(x) for x in r] for r in rows], dtype=float)


def selector(rule, temperature, seed=None):
    from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
    kw = {} if seed is None else dict(seed=seed)
    return MaxActionSelector(**kw) if rule == "max" else SoftmaxActionSelector(temperature=temperature, **kw)


def usable(q):
    return not np.all(np.isnan(q))


def compare_row(p, q, ref, rule, T, what):
    """one row of a probabilistic policy against its reference"""
    require(p.shape == ref.shape, "{0}: shape {1}", what, p.shape)
    if np.isnan(ref).all():
        require(np.isnan(p).all(), "{0}: no action is estimated, but probabilities are {1}", what, p.tolist())
        return
    require(np.all(np.isfinite(p)) and np.all(p >= 0) and np.all(p <= 1 + 1e-12), "{0}: probabilities {1} for values {2}", what, p.tolist(), q.tolist())
    require(abs(p.sum() - 1) < 1e-9, "{0}: probabilities sum to {1}", what, p.sum())
    out = ~np.isfinite(q)
    require(np.all(p[out] == 0), "{0}: an unavailable or missing action has probability {1}", what, p[out].tolist())
    if rule == "max":
        require(np.allclose(p, ref, rtol=1e-9, atol=1e-12), "{0}: greedy probabilities {1} for values {2}, expected {3}", what, p.tolist(), q.tolist(), ref.tolist())
        return
    v = q[np.isfinite(q)]
    err = 4e-16 * np.abs(v).max() / T
    gaps = (v.max() - v) / T
    if err > 1e-2 and not all(g == 0 or g > 800 + 100 * err for g in gaps):
        for a in range(len(q)):
            for b in range(len(q)):
                if np.isfinite(q[a]) and np.isfinite(q[b]) and q[a] >= q[b]:
                    require(p[a] >= p[b] - 1e-12, "{0}: softmax gives {1} for values {2}", what, p.tolist(), q.tolist())
        return
    require(np.allclose(p, ref, rtol=1e-7 + 10 * min(err, 1e-2), atol=1e-12), "{0}: softmax (temperature {1}) gives {2} for values {3}, expected {4}", what, T, p.tolist(), q.tolist(), ref.tolist())


def interesting(q, T, rule):
    if q.shape[1] < 2:
        return False
    for row in q:
        f = row[np.isfinite(row)]
        if np.isnan(row).any() or np.isneginf(row).any() or (len(f) > 1 and len(np.unique(f)) < len(f)) or (rule == "softmax" and len(f) and np.abs(f).max() / T > 700):
            return True
    return False


def strat(tier):
    return st.fixed_dictionaries(dict(rows=tables(), rule=st.sampled_from(["max", "softmax", "softmax"]), T=temps, seed=st.one_of(st.none(), st.integers(0, 10 ** 6)),
                                      between=st.sampled_from([0, 1, 2]), order=st.booleans(), asint=bools(1), fortran=bools(2)))


def check(c, ctx):
    q = to_array(c["rows"])
    if not usable(q):
        return
    if c["asint"] and np.all(np.isfinite(q)) and np.abs(q).max() < 1e9:
        q = np.array(q, dtype=int)
        ctx.label("integer table")
    if c["fortran"]:
        q = np.asfortranarray(q)
    keep = q.copy()
    qf = keep.astype(float)
    ref = refs.policy_rows(qf, c["rule"], c["T"])
    ctx.label(c["rule"])
    ctx.nontrivial(interesting(qf, c["T"], c["rule"]))
    ctx.touched = True
    sel = selector(c["rule"], c["T"], c["seed"])
    calls = ["p", "pi", "p"] if c["order"] else ["pi", "p", "pi"]
    for k in calls:
        if c["between"]:        # the same selector used for another table in between
            (sel.get_pi_p if c["between"] == 1 else sel.get_pi)(np.array(q[:, ::-1]))
        out = sel.get_pi_p(q) if k == "p" else sel.get_pi(q)
        require(np.array_equal(q, keep, equal_nan=True) if q.dtype == float else np.array_equal(q, keep), "choosing altered the action values")
        if k == "p":
            require(out.shape == q.shape, "probabilities have shape {0}", out.shape)
            for s in range(len(q)):
                if ref[s] is not None:
                    compare_row(np.asarray(out)[s], qf[s], ref[s], c["rule"], c["T"], "state %d" % s)
        else:
            require(out.shape == (len(q),), "policy has shape {0}", out.shape)
            for s in range(len(q)):
                if ref[s] is None:
                    continue
                a = int(out[s])
                require(a == out[s], "action {0} is not a whole number", out[s])
                if np.isnan(ref[s]).all():
                    require(a < 0, "state {0}: no action is estimated, but action {1} was chosen", s, a)
                else:
                    require(0 <= a < q.shape[1] and ref[s][a] > 0, "state {0}: chose action {1} of probability {2}, values {3}", s, a, ref[s][a] if 0 <= a < q.shape[1] else None, qf[s].tolist())


def strat_freq(tier):
    small = st.one_of(levels, st.sampled_from(["-inf", "nan"]), st.floats(-3, 3))
    return st.fixed_dictionaries(dict(rows=tables(3, 5, small), rule=st.sampled_from(["max", "softmax"]), T=st.sampled_from([1, 0.5, 2.0, 0.1, 10]),
                                      seed=st.one_of(st.none(), st.integers(0, 10 ** 6))))


def check_freq(c, ctx):
    q = to_array(c["rows"])
    if not usable(q):
        return
    N = 400
    ref = refs.policy_rows(q, c["rule"], c["T"])
    ctx.nontrivial(any(r is not None and np.nanmax(r) < 0.999 for r in ref))
    ctx.label(c["rule"], "own seed" if c["seed"] is not None else "global generator")
    ctx.touched = True
    sel = selector(c["rule"], c["T"], c["seed"])
    draws = np.array([sel.get_pi(q) for _ in range(N)])
    for s, r in enumerate(ref):
        if r is None or np.isnan(r).all():
            continue
        for a in range(q.shape[1]):
            k = int((draws[:, s] == a).sum())
            p = min(max(float(r[a]), 0.0), 1.0)
            tail = min(binom.cdf(k, N, p), binom.sf(k - 1, N, p))
            require(tail > 1e-11, "state {0}: action {1} of probability {2} was chosen {3} times in {4}", s, a, p, k, N)


def strat_rare(tier):
    """one row of action values repeated, in which one or two actions are rarely chosen"""
    return st.fixed_dictionaries(dict(rest=st.lists(st.sampled_from([0, 0, -0.5, 1]), min_size=1, max_size=3),
                                      rare=st.lists(st.sampled_from([4e-4, 7e-4, 1.3e-3, 3e-3, 1e-2]), min_size=1, max_size=2), T=st.sampled_from([1, 0.5, 5]),
                                      turn=st.integers(0, 4), seed=st.one_of(st.none(), st.integers(0, 10 ** 6))))


def check_rare(c, ctx):
    top = max(c["rest"])
    row = [float(x) for x in c["rest"]] + [top + c["T"] * np.log(p) for p in c["rare"]]
    row = row[c["turn"] % len(row):] + row[:c["turn"] % len(row)]
    q = np.array([row])
    ref = refs.policy_rows(q, "softmax", c["T"])[0]
    N = min(int(27 / ref.min()), 120000)
    ctx.nontrivial()
    ctx.label("own seed" if c["seed"] is not None else "global generator")
    ctx.touched = True
    draws = np.asarray(selector("softmax", c["T"], c["seed"]).get_pi(np.repeat(q, N, axis=0)))
    for a in range(len(row)):
        k = int((draws == a).sum())
        tail = min(binom.cdf(k, N, ref[a]), binom.sf(k - 1, N, ref[a]))
        require(tail > 4e-12, "action {0} of probability {1} was chosen {2} times in {3}", a, ref[a], k, N)


def strat_seed(tier):
    return st.fixed_dictionaries(dict(tabs=st.lists(tables(4, 5), min_size=1, max_size=4), rule=st.sampled_from(["max", "softmax"]), T=temps,
                                      seed=st.integers(0, 10 ** 6), noise=st.integers(1, 50)))


def check_seed(c, ctx):
    tabs = [t for t in (to_array(r) for r in c["tabs"]) if usable(t)]
    outs = []
    ctx.touched = True
    for k in range(2):
        sel = selector(c["rule"], c["T"], c["seed"])
        if k:
            np.random.rand(c["noise"])      # the global generator must not matter
        outs.append([sel.get_pi(t).tolist() for t in tabs])
    ctx.nontrivial(len(tabs) > 1)
    require(outs[0] == outs[1], "two selectors with seed {0} choose differently: {1} and {2}", c["seed"], outs[0], outs[1])


def strat_bad(tier):
    return st.fixed_dictionaries(dict(rows=tables(4, 4), kind=st.sampled_from(["list", "1d", "3d", "nan", "none", "temp"]), rule=st.sampled_from(["max", "softmax"]),
                                      T=st.sampled_from([0, 0.0, -1, -0.5, -1e-9]), p=st.booleans()))


def check_bad(c, ctx):
    ctx.touched = True
    ctx.nontrivial()
    ctx.label(c["kind"])
    if c["kind"] == "temp":
        from maMDP.algorithms.action_selection import SoftmaxActionSelector
        ctx.expect_error(lambda: SoftmaxActionSelector(temperature=c["T"]), "temperature %s" % c["T"])
        return
    q = to_array(c["rows"])
    bad = {"list": q.tolist(), "1d": q[0], "3d": q[None], "nan": np.full(q.shape, np.nan), "none": None}[c["kind"]]
    sel = selector(c["rule"], 1)
    ctx.expect_error(lambda: (sel.get_pi_p if c["p"] else sel.get_pi)(bad), "table of action values given as %s" % c["kind"])


def strat_fn(tier):
    return st.fixed_dictionaries(dict(row=st.lists(st.one_of(finite, finite, finite, st.just("-inf")), min_size=1, max_size=7), T=temps,
                                      x=st.lists(levels, min_size=1, max_size=8), seed=st.integers(0, 1000)))


def check_fn(c, ctx):
    from maMDP.algorithms.action_selection import softmax, random_max
    q = np.array([float(x) for x in c["row"]])
    ctx.touched = True
    if np.isfinite(q).any():
        keep = q.copy()
        p = np.asarray(softmax(q, c["T"]))
        require(np.array_equal(q, keep), "softmax altered its input")
        compare_row(p, q, refs.softmax_row(q, c["T"]), "softmax", c["T"], "softmax")
        ctx.nontrivial(interesting(q[None], c["T"], "softmax"))
    x = np.array(c["x"], dtype=float)
    picks = {int(random_max(x)) for _ in range(60)}
    best = set(np.where(x == x.max())[0].tolist())
    require(picks <= best, "random_max picked {0} in {1}", sorted(picks), x.tolist())
    if len(best) <= 2:
        require(picks == best, "random_max only ever picks {0} in {1}", sorted(picks), x.tolist())
    a = [int(random_max(x, np.random.RandomState(c["seed"]))) for _ in range(2)]
    require(a[0] == a[1], "random_max is not reproducible from a generator")


SUBS = [Sub("policies", strat, check, 1500, 30000), Sub("frequencies", strat_freq, check_freq, 80, 1500), Sub("rare", strat_rare, check_rare, 2, 60), Sub("seeded", strat_seed, check_seed, 150, 2000),
        Sub("rejected", strat_bad, check_bad, 80, 400), Sub("functions", strat_fn, check_fn, 500, 8000)]
