from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are grid worlds (kind, shape incl. thin/non-square/odd/even, self-transitions, features); non-trivial: at least "
        "4 states and both an interior parity class and a border present (more than one row and one column)")
ASSUMPTIONS = ["direction numbering: square 0..3 = +y,+x,-y,-x; hex 0..5 clockwise from +y (as pinned by the repository's tests)",
               "hex columns: even columns are shifted half a cell towards +y, as drawn by the repository's plots"]


def strat(tier):
    big = 150 if tier == "quick" else 260
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["square", "hex"]), shape=st.one_of(shapes(60, 9), shapes(big, 16)), selft=st.booleans(),
                                      probe=st.lists(st.tuples(raw, raw).map(list), min_size=1, max_size=12)))


def check(c, ctx):
    w, h = c["shape"]
    n = w * h
    ctx.label(c["kind"], "selft" if c["selft"] else "noself", "odd width" if w % 2 else "even width", "thin" if min(w, h) == 1 else "2d",
              "large" if n > 60 else "small")
    ctx.nontrivial(w > 1 and h > 1 and n >= 4)
    world = dict(world=c["kind"], shape=c["shape"], selft=c["selft"], walls=[], features=[dict(fill=1, cells=[])])
    ctx.touched = True
    mdp = build_grid(world, walls=None)
    ref = refs.grid_sas(c["kind"], c["shape"], c["selft"])
    na = ref.shape[1]
    require(mdp.n_states == n, "n_states {0} != {1}", mdp.n_states, n)
    require(mdp.n_actions == na, "n_actions {0} != {1}", mdp.n_actions, na)
    sas = np.asarray(mdp.sas)
    require(sas.shape == ref.shape, "transition array shape {0} != {1}", sas.shape, ref.shape)
    if not np.array_equal(sas, ref):
        s, a, t = np.argwhere(sas != ref)[0]
        fail("transition ({0}, action {1}) -> {2} is {3}, geometry says {4}", divmod(int(s), h), a, divmod(int(t), h), sas[s, a, t], ref[s, a, t])
    # connectivity reports
    adj = (ref.sum(axis=1) > 0)
    require(np.array_equal(np.asarray(mdp.adjacency) > 0, adj), "adjacency matrix disagrees with transitions")
    coords = np.array([[x, y] for x in range(w) for y in range(h)])
    require(np.array_equal(np.asarray(mdp.grid_coords), coords), "grid coordinates are not in row-major order")
    require(list(mdp.state_ids) == list(range(n)), "state IDs wrong")
    for s in range(n):
        x, y = divmod(s, h)
        idx = mdp.state_to_idx(s)
        require(tuple(int(i) for i in idx) == (x, y), "state_to_idx({0}) = {1}", s, idx)
        require(int(mdp.idx_to_state((x, y))) == s, "idx_to_state({0}) = {1}", (x, y), mdp.idx_to_state((x, y)))
        require(tuple(int(i) for i in mdp.get_state_coords(s)) == (x, y), "get_state_coords({0}) wrong", s)
    probes = [p for p in c["probe"]]
    for p, q in probes:
        s, t = p % n, q % n
        va = sorted(int(i) for i in mdp.state_valid_actions(s))
        exp = [a for a in range(na) if ref[s, a].any()]
        require(va == exp, "valid actions of {0}: {1} expected {2}", divmod(s, h), va, exp)
        require(bool(mdp.is_adjacent(s, t)) == bool(adj[s, t]), "is_adjacent({0},{1})", s, t)
        for a in exp:
            nx = int(mdp.get_next_state(s, a))
            require(ref[s, a, nx] == 1, "next state of {0} under {1} is {2}", s, a, nx)
            # opposite direction undoes
            if not (c["selft"] and a == na - 1):
                k = na - (1 if c["selft"] else 0)
                b = (a + k // 2) % k
                require(int(mdp.get_next_state(nx, b)) == s, "opposite of action {0} does not return to {1}", a, s)
            else:
                require(nx == s, "self-transition moved")
    # values laid out on the grid and back
    v = np.arange(n, dtype=float)
    g = np.asarray(mdp.flat_to_grid(v))
    require(g.shape == (w, h) and all(g[divmod(s, h)] == s for s in range(n)), "flat_to_grid misplaces states")
    fg = np.asarray(mdp.features_as_grid())
    require(fg.shape == (1, w, h), "features_as_grid shape")


def strat_feat(tier):
    return grid_worlds(max_states=80, max_side=10, walls=False)


def check_feat(c, ctx):
    """Features as a grid: value of feature f of state s is found at that state's coordinates."""
    w, h = c["shape"]
    F = build_features(c["features"], w * h)
    ctx.touched = True
    mdp = build_grid(c, walls=None)
    fg = np.asarray(mdp.features_as_grid())
    ctx.nontrivial(w != h and len(np.unique(F)) > 1)
    for f in range(F.shape[0]):
        for s in range(w * h):
            require(fg[(f,) + divmod(s, h)] == F[f, s], "feature {0} of state {1} misplaced", f, s)


SUBS = [Sub("transitions", strat, check, 220, 2500), Sub("features_on_grid", strat_feat, check_feat, 150, 1000)]
