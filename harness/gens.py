"""
Generators (Hypothesis strategies) of JSON-serialisable case descriptions, and builders turning descriptions into the
repository's objects.  Descriptions store raw integers; the builders reduce them modulo the relevant size, so that
every description is valid by construction and shrinks freely.
"""
import numpy as np
from hypothesis import strategies as st

# ---------------------------------------------------------------- basic values
feature_values = st.sampled_from([1, 1, 1, 1, 0, 0.5, 2, -1, 0.25, 3])
binary_values = st.sampled_from([1, 1, 1, 0])
weights = st.one_of(st.integers(-3, 3), st.sampled_from([0.5, -0.5, 0.2, 1.5, -2.5, 10, -10, 0, 1, -1, 0.1]))
nonneg_weights = st.one_of(st.integers(0, 3), st.sampled_from([0.5, 0.2, 1.5, 5]))
raw = st.integers(0, 10 ** 6)


def bools(p_true_of_10=5):
    return st.integers(0, 9).map(lambda k: k < p_true_of_10)


@st.composite
def upto(draw, lo, hi, rare=None):
    """lo..hi, now and then more (up to rare)"""
    if rare is not None and rare > hi and draw(st.integers(0, 24)) >= 24:
        return draw(st.integers(hi + 1, rare))
    return draw(st.integers(lo, hi))


def _very_long(k):
    return [int(x) for x in np.random.RandomState(k[0] % 2 ** 31).randint(0, 10 ** 6, k[1])]


def paths(short, long=(13, 30)):
    """mostly what `short` gives, now and then a long list of raw choices, seldom a very long one"""
    return st.integers(0, 59).flatmap(lambda k: st.tuples(raw, st.integers(257, 700)).map(_very_long) if k == 58
                                      else st.lists(raw, min_size=long[0], max_size=long[1]) if k > 55 else short)


@st.composite
def shapes(draw, max_states=60, max_side=9, min_states=1):
    """Grid shapes: small ones, thin ones, non-square ones, occasionally large."""
    kind = draw(st.integers(0, 9))
    if kind <= 1:      # thin
        n = draw(st.integers(1, max_side + 6))
        m = draw(st.integers(1, 2))
        w, h = (n, m) if draw(st.booleans()) else (m, n)
    else:
        w, h = draw(st.integers(1, max_side)), draw(st.integers(1, max_side))
    while w * h > max_states:
        if w >= h:
            w -= 1
        else:
            h -= 1
    while w * h < min_states:
        if w <= h:
            w += 1
        else:
            h += 1
    return [w, h]


@st.composite
def feature_rows(draw, n_min=1, n_max=3, values=feature_values, n_cells=8):
    n = draw(upto(n_min, n_max, n_max + 3 if n_max > n_min else None))
    return [dict(fill=draw(st.sampled_from([0, 0, 0, 0, 0, 1])),
                 cells=draw(st.lists(st.tuples(raw, values).map(list), max_size=n_cells)))
            for _ in range(n)]


# How the arrays are handed over: 0 plainly, 1 features assigned to the finished world, 2 integer arrays where the values allow it, 3 both.
handovers = st.sampled_from([0, 0, 0, 0, 1, 2, 3])


def as_given(arr, how):
    """The array as an integer array, if asked for and possible."""
    arr = np.asarray(arr)
    return arr.astype(int) if how & 2 and np.array_equal(arr, arr.astype(int)) else arr


def hand_over(make, F, how):
    F = as_given(F, how)
    if not how & 1:
        return make(F)
    mdp = make(np.zeros((1 if F.shape[0] > 1 else 2, F.shape[1])))
    mdp.features = F
    return mdp


def build_features(rows, n_states):
    F = np.zeros((len(rows), n_states))
    for f, r in enumerate(rows):
        F[f, :] = r["fill"]
        for s, v in r["cells"]:
            F[f, s % n_states] = v
    return F


@st.composite
def grid_worlds(draw, max_states=60, max_side=9, min_states=1, n_feat=(1, 3), values=feature_values, kinds=("square", "hex"),
                walls=True, n_cells=8, big=2):
    """big: per cent of worlds with more states than the small integer types can number"""
    if big and draw(st.integers(0, 99)) >= 100 - big:
        shape = list(draw(st.sampled_from([[12, 11], [2, 70], [140, 1], [16, 17], [1, 270], [19, 14]])))
    else:
        shape = draw(shapes(max_states, max_side, min_states))
    n = shape[0] * shape[1]
    w = []
    if walls and draw(bools(6)):
        w = draw(st.lists(raw, max_size=min(30, max(1, n // 2))))
    return dict(world=draw(st.sampled_from(list(kinds))), shape=shape, selft=draw(st.booleans()), walls=w,
                features=draw(feature_rows(n_feat[0], n_feat[1], values, n_cells)), how=draw(handovers))


def wall_array(w, n):
    a = np.zeros(n)
    for s in w:
        a[s % n] = 1
    return a


def build_grid(w, features=None, walls="from"):
    from maMDP.mdp import SquareGridMDP, HexGridMDP
    n = w["shape"][0] * w["shape"][1]
    F = build_features(w["features"], n) if features is None else features
    cls = SquareGridMDP if w["world"] == "square" else HexGridMDP
    wa = wall_array(w["walls"], n) if isinstance(walls, str) else walls
    if wa is not None and not wa.any() and isinstance(walls, str):
        wa = None
    make = lambda F: cls(features=F, walls=wa, shape=tuple(w["shape"]), self_transitions=w["selft"])
    return make(F) if features is not None else hand_over(make, F, w.get("how", 0))


# ---------------------------------------------------------------- general MDPs
@st.composite
def sas_tables(draw, max_states=7, max_actions=4, stochastic=True, min_states=1, dead=True):
    """A transition table as nested description: T[s][a] = list of [next raw, weight]; empty = unavailable."""
    n = draw(st.integers(min_states, max_states))
    m = draw(upto(1, max_actions, max_actions + 4 if max_actions > 1 else None))
    branch = st.tuples(raw, st.integers(1, 4)).map(list)
    if stochastic and draw(bools(3)):      # nearly deterministic: one dominant successor
        big = st.tuples(raw, st.sampled_from([30, 30, 100, 400, 5000])).map(list)
        row = st.one_of(st.lists(branch, min_size=1, max_size=1), st.tuples(big, branch).map(list), st.tuples(branch, big).map(list))
    elif stochastic:
        row = st.one_of(st.lists(branch, min_size=1, max_size=1), st.lists(branch, min_size=2, max_size=3))
    else:
        row = st.lists(branch, min_size=1, max_size=1)
    if dead:
        row = st.one_of(st.just([]), row, row, row)
    T = [[draw(row) for _ in range(m)] for _ in range(n)]
    return dict(world="table", n=n, m=m, T=T)


def build_sas(t):
    n, m = t["n"], t["m"]
    sas = np.zeros((n, m, n))
    for s in range(n):
        for a in range(m):
            tot = sum(w for _, w in t["T"][s][a])
            for nx, w in t["T"][s][a]:
                sas[s, a, nx % n] += w / tot
    # exact 1 for deterministic rows (several branches to the same state)
    one = sas.max(axis=-1) > 1 - 1e-12
    for s, a in zip(*np.where(one)):
        k = sas[s, a].argmax()
        sas[s, a] = 0
        sas[s, a, k] = 1
    return sas


@st.composite
def table_worlds(draw, max_states=7, max_actions=4, stochastic=True, n_feat=(1, 3), values=feature_values, min_states=1, dead=True):
    t = draw(sas_tables(max_states, max_actions, stochastic, min_states, dead))
    t["features"] = draw(feature_rows(n_feat[0], n_feat[1], values, 5))
    t["seed"] = draw(st.one_of(st.just(0), st.integers(0, 10 ** 6)))
    t["how"] = draw(handovers)
    return t


def build_world(w):
    if w["world"] == "table":
        from maMDP.mdp import MDP
        how = w.get("how", 0)
        return hand_over(lambda F: MDP(F, as_given(build_sas(w), how), seed=w.get("seed")), build_features(w["features"], w["n"]), how)
    return build_grid(w)


def world_n_states(w):
    return w["n"] if w["world"] == "table" else w["shape"][0] * w["shape"][1]


# ---------------------------------------------------------------- agents
@st.composite
def agent_specs(draw, n_agents, n_feat, max_moves=3, selectors=("max", "max", "softmax"), algorithms=("vi", "vi", "vi", "null"),
                weight=weights, self_weight=True, consume_agents=True):
    """Descriptions of n_agents agents for a world with n_feat own features."""
    out = []
    for i in range(n_agents):
        r = [draw(weight) for _ in range(n_feat + n_agents)]
        if not self_weight:
            r[n_feat + i] = 0
        pool = list(range(n_feat))
        if consume_agents:
            pool += [n_feat + j for j in range(n_agents) if j != i]
        cons = draw(st.lists(st.sampled_from(pool), unique=True, max_size=draw(upto(3, 3, 6)))) if pool else []
        sel = draw(st.sampled_from(list(selectors)))
        alg = draw(st.sampled_from(list(algorithms)))
        a = dict(start=draw(raw), reward=r, consumes=cons, n_moves=draw(upto(1, max_moves, max_moves + 3)), selector=sel, algorithm=alg,
                 as_list=draw(st.booleans()))
        if alg == "vi":
            a["discount"] = draw(st.sampled_from([0.9, 0.9, 0.5, 0.8, 0.95, 0.2]))
        if sel == "softmax":
            a["temperature"] = draw(st.sampled_from([1, 0.5, 2.0, 0.1, 10]))
        a["seed"] = draw(st.one_of(st.none(), st.just(0), st.integers(0, 10 ** 6)))
        out.append(a)
    return out


def agent_names(k):
    return ["wolf", "Hare", "agent 10", "agent 9", "zebra", "ant"][:k]      # not in any sorted order


def build_agent(name, a, extra_kwargs=None):
    from maMDP.agents import Agent
    from maMDP.algorithms.dynamic_programming import ValueIteration
    from maMDP.algorithms.base import Null
    from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
    kw = {}
    if a["algorithm"] == "vi":
        alg = ValueIteration
        kw = dict(discount=a.get("discount", 0.9))
    elif a["algorithm"] == "null":
        alg = Null
    elif a["algorithm"] == "mcts":
        from maMDP.algorithms.mcts import MCTS
        alg = MCTS
        kw = dict(a.get("mcts", {}))
    else:
        raise ValueError(a["algorithm"])
    kw.update(extra_kwargs or {})
    akw = {} if a.get("seed") is None else dict(seed=a["seed"])
    if a["selector"] == "softmax":
        akw["temperature"] = a["temperature"]
    return Agent(name, n_moves=a["n_moves"], algorithm=alg, algorithm_kwargs=kw,
                 action_selector=MaxActionSelector if a["selector"] == "max" else SoftmaxActionSelector, action_kwargs=akw)


def build_env(world, agents, mdp=None, names=None, agent_objs=None):
    """Returns env, mdp, names"""
    from maMDP.environments import Environment
    if mdp is None:
        mdp = build_world(world)
    names = names or agent_names(len(agents))
    spec = {}
    n = world_n_states(world)
    for k, a in enumerate(agents):
        obj = agent_objs[k] if agent_objs else build_agent(names[k], a)
        r = list(a["reward"]) if a.get("as_list") else np.array(a["reward"], dtype=float)
        spec[obj] = (int(a["start"] % n), r, list(a["consumes"]))
    return Environment(mdp, spec), mdp, names
