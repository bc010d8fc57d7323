from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are a world plus a sequence of wall edits; non-trivial: at least two accepted edits, at least one of them removing "
        "walls that an earlier one had placed, on a world of at least 4 states")
ASSUMPTIONS = ["ranges given to add_wall_xy exclude their end (Python range convention, as implemented)",
               "worlds are deterministic; walls in stochastic custom MDPs are not claimed"]


@st.composite
def worlds(draw, tier):
    if draw(bools(3)):
        return draw(table_worlds(max_states=8, max_actions=4, stochastic=False))
    return draw(grid_worlds(max_states=48 if tier == "quick" else 90, max_side=9))


@st.composite
def ops(draw):
    k = draw(st.sampled_from(["set", "set", "set", "xy", "xy", "xy", "reset", "bad", "badxy", "agents"]))
    if k == "set":
        return [k, draw(st.lists(raw, max_size=12)), draw(st.sampled_from(["float", "int", "bool", "uint8"]))]
    if k == "xy":
        return [k, draw(st.booleans()), draw(raw), draw(raw), draw(st.booleans()), draw(raw), draw(raw), draw(st.booleans())]
    if k == "bad":
        return [k, draw(st.sampled_from(["long", "short", "2d", "two", "half", "neg", "nan", "grid"])), draw(raw)]
    if k == "badxy":
        return [k, draw(st.sampled_from(["int", "oobx", "ooby", "str"]))]
    return [k]


def strat(tier):
    return st.fixed_dictionaries(dict(w=worlds(tier), ops=st.lists(ops(), min_size=2, max_size=10), caller_walls=st.booleans(), probe=raw))


def check(c, ctx):
    w = c["w"]
    n = world_n_states(w)
    grid = w["world"] != "table"
    ctx.touched = True
    passed = []          # (array handed to the code, pristine copy)
    if grid:
        orig = refs.grid_sas(w["world"], w["shape"], w["selft"])
        init = wall_array(w["walls"], n) if w["walls"] else None
        if init is not None:
            passed.append((init, init.copy()))
        mdp = build_grid(w, walls=init)
        walls = init.copy() if init is not None else np.zeros(n)
    else:
        from maMDP.mdp import MDP
        orig = build_sas(w)
        arg = orig.copy()
        passed.append((arg, orig.copy()))
        mdp = MDP(build_features(w["features"], n), arg)
        walls = np.zeros(n)
    F0 = build_features(w["features"], n)
    ctx.label(w["world"])

    def verify(what):
        ref = refs.apply_walls(orig, walls)
        sas = np.asarray(mdp.sas)
        require(sas.shape == ref.shape, "{0}: shape of transitions changed to {1}", what, sas.shape)
        if not np.array_equal(sas, ref):
            s, a, t = (int(i) for i in np.argwhere(sas != ref)[0])
            fail("{0}: transition {1} -{2}-> {3} is {4}, expected {5} (walls {6})", what, s, a, t, sas[s, a, t], ref[s, a, t], np.where(walls)[0].tolist())
        require(np.array_equal(np.asarray(mdp.walls).astype(float), walls), "{0}: reported walls {1}, expected {2}", what, np.where(mdp.walls)[0].tolist(), np.where(walls)[0].tolist())
        adj = ref.sum(axis=1) > 0
        require(np.array_equal(np.asarray(mdp.adjacency) > 0, adj), "{0}: adjacency matrix disagrees with the walls {1}", what, np.where(walls)[0].tolist())
        s = c["probe"] % n
        interesting = {s} | set(int(i) for i in np.where(walls)[0][:3])
        for s in interesting:
            va = sorted(int(i) for i in mdp.state_valid_actions(s))
            require(va == [a for a in range(ref.shape[1]) if ref[s, a].any()], "{0}: valid actions of {1}: {2}", what, s, va)
            for t in range(n):
                require(bool(mdp.is_adjacent(s, t)) == bool(adj[s, t]), "{0}: is_adjacent({1},{2})", what, s, t)
        require(mdp.n_states == n and mdp.n_actions == ref.shape[1], "{0}: state/action counts changed", what)

    verify("initial")
    accepted = 0
    removed = False
    for op in c["ops"]:
        k = op[0]
        if k == "set":
            new = wall_array(op[1], n)
            arr = new.astype(dict(float=float, int=int, bool=bool, uint8=np.uint8)[op[2]])
            passed.append((arr, arr.copy()))
            mdp.walls = arr
            removed |= bool((walls > new).any())
            walls = new
            accepted += 1
            verify("walls = %s" % np.where(new)[0].tolist())
        elif k == "reset":
            if not grid:
                continue
            mdp.reset_walls()
            removed |= bool(walls.any())
            walls = np.zeros(n)
            accepted += 1
            verify("reset_walls")
        elif k == "xy":
            if not grid:
                continue
            W, H = w["shape"]

            def rng(is_range, p, q, size):
                if not is_range:
                    return (p % size,), [p % size]
                lo = p % size
                hi = lo + q % (size - lo + 1)
                return (lo, hi), list(range(lo, hi))
            xs, xl = rng(op[1], op[2], op[3], W)
            ys, yl = rng(op[4], op[5], op[6], H)
            if op[7]:
                xs, ys = list(xs), list(ys)
            mdp.add_wall_xy(xs, ys)
            walls = walls.copy()
            for x in xl:
                for y in yl:
                    walls[x * H + y] = 1
            accepted += 1
            verify("add_wall_xy(%s, %s)" % (xs, ys))
        elif k == "bad":
            base = np.zeros(n)
            base[op[2] % n] = 1
            bad = {"long": np.zeros(n + 1), "short": np.zeros(n - 1) if n > 1 else np.zeros(n + 2), "2d": base[None, :], "two": base * 2,
                   "half": base * 0.5, "neg": -base, "nan": np.where(base > 0, np.nan, 0.0),
                   "grid": base.reshape(w["shape"]) if grid and min(w["shape"]) > 1 else base[:, None]}[op[1]]

            def go():
                mdp.walls = bad
            ctx.expect_error(go, "malformed wall array (%s)" % op[1])
            ctx.label("bad " + op[1])
            verify("after rejected walls (%s)" % op[1])
        elif k == "badxy":
            if not grid:
                continue
            W, H = w["shape"]
            a = {"int": (0, (0,)), "str": ((0,), "0"), "oobx": ((W,), (0,)), "ooby": ((0,), (0, H + 1))}[op[1]]
            ctx.expect_error(lambda: mdp.add_wall_xy(*a), "add_wall_xy%s on a %sx%s grid" % (a, W, H))
            verify("after rejected add_wall_xy")
        elif k == "agents":
            mdp.add_agent_feature(c["probe"] % n)
            F0 = np.vstack([F0, np.eye(n)[c["probe"] % n]])
            verify("after adding an agent feature")
        require(np.array_equal(np.asarray(mdp.features), F0), "wall edit changed the features")
    for arr, copy in passed:
        require(np.array_equal(arr, copy, equal_nan=True), "an array passed in by the caller was modified: {0} -> {1}", copy.tolist() if copy.size < 60 else "", arr.tolist() if arr.size < 60 else "")
    ctx.nontrivial(accepted >= 2 and removed and n >= 4)


SUBS = [Sub("edits", strat, check, 350, 4000)]
