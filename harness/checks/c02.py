from core import *
from gens import *
import refs
import numpy as np
from hypothesis import strategies as st

RULE = ("cases are pairs/triples of offset hex coordinates and coordinate lists; non-trivial: pair more than 3 moves apart "
        "with both coordinates differing, or a list of at least 3 distinct coordinates of both column parities")
ASSUMPTIONS = ["even columns are shifted half a cell towards +y (the layout drawn by the plots and pinned by the tests' neighbourhoods)"]

_bfs = {}


def ref_dist(a, b):
    """Breadth-first search nearby; the geometric (axial) distance far away.  Both are exact; they are compared where both apply."""
    qa, qb = a[0], b[0]
    # axial row coordinate from the geometric centre, doubled to stay in integers: centre_y/sqrt3 = y + 0.5*[x even]
    da = 2 * a[1] + (1 if a[0] % 2 == 0 else 0)
    db = 2 * b[1] + (1 if b[0] % 2 == 0 else 0)
    dq = qb - qa
    d2 = db - da                       # doubled vertical displacement
    r2 = d2 - dq                       # 2 * axial r
    assert r2 % 2 == 0
    r = r2 // 2
    geo = max(abs(dq), abs(r), abs(dq + r))
    if geo <= 6:
        par = a[0] % 2
        if par not in _bfs:
            _bfs[par] = refs.hex_bfs((par, 0), 7)
        rel = (b[0] - a[0] + par, b[1] - a[1])
        assert _bfs[par][rel] == geo
    return geo


coord = st.one_of(st.integers(0, 12), st.integers(-20, 20), st.integers(-100000, 100000), st.integers(-2 ** 45, 2 ** 45))
pt = st.tuples(coord, coord).map(list)


def strat_near(tier):
    """a pair within a small offset of one another, anywhere"""
    off = st.integers(-6, 6)
    return st.tuples(pt, off, off).map(lambda t: dict(a=t[0], b=[t[0][0] + t[1], t[0][1] + t[2]], c=[t[0][0] - t[2], t[0][1] + t[1]]))


def strat_any(tier):
    return st.fixed_dictionaries(dict(a=pt, b=pt, c=pt))


def check_pair(c, ctx):
    from maMDP.grid_utils import offset_distance
    P = [c["a"], c["b"], c["c"]]
    ctx.touched = True

    def d(i, j):
        return offset_distance(P[i][0], P[i][1], P[j][0], P[j][1])
    dab = d(0, 1)
    exp = ref_dist(P[0], P[1])
    ctx.label("d=%s" % (exp if exp < 5 else "5+"), "parity %d%d" % (P[0][0] % 2, P[1][0] % 2))
    ctx.nontrivial(exp > 3 and P[0][0] != P[1][0] and P[0][1] != P[1][1])
    require(dab == exp, "distance {0}-{1} is {2}, shortest path has {3} moves", P[0], P[1], dab, exp)
    require(d(1, 0) == dab, "distance {0}-{1} not symmetric", P[0], P[1])
    require(d(0, 0) == 0, "distance of {0} to itself is not zero", P[0])
    require((dab == 0) == (P[0] == P[1]), "zero distance of different cells")
    require(d(0, 2) <= dab + d(1, 2), "triangle inequality violated for {0}", P)
    require(d(0, 2) == ref_dist(P[0], P[2]) and d(1, 2) == ref_dist(P[1], P[2]), "distance wrong among {0}", P)


@st.composite
def strat_table(draw, tier):
    small = st.integers(-4, 10)
    p = st.tuples(small, small).map(list)
    kind = draw(st.sampled_from(["list", "list", "grid"]))
    if kind == "grid":
        sh = draw(shapes(80, 12))
        return dict(kind=kind, shape=sh, xb=draw(st.lists(p, min_size=1, max_size=6)))
    return dict(kind=kind, xa=draw(st.lists(p, min_size=1, max_size=14)), xb=draw(st.lists(p, min_size=1, max_size=9)))


def check_table(c, ctx):
    from maMDP import grid_utils as g
    ctx.touched = True
    if c["kind"] == "grid":
        ids, A = g.grid_coords(np.zeros(c["shape"]))
        exp = [[x, y] for x in range(c["shape"][0]) for y in range(c["shape"][1])]
        require(np.asarray(A).tolist() == exp and list(ids) == list(range(len(exp))), "grid_coords enumerates {0}", np.asarray(A).tolist())
        xa = exp
        A = np.array(exp)
    else:
        xa = c["xa"]
        A = np.array(xa)
    xb = c["xb"]
    B = np.array(xb)
    ctx.label(c["kind"])
    ctx.nontrivial(len({tuple(p) for p in xa}) >= 3 and len({p[0] % 2 for p in xa}) == 2)
    A0, B0 = A.copy(), B.copy()
    D = np.asarray(g.hex_dist(A, B))
    R = np.array([[ref_dist(p, q) for q in xb] for p in xa])
    require(D.shape == R.shape, "distance table has shape {0}, expected {1}", D.shape, R.shape)
    if not np.array_equal(D, R):
        i, j = np.argwhere(D != R)[0]
        fail("distance table entry {0}-{1} is {2}, expected {3}", xa[i], xb[j], D[i, j], R[i, j])
    H = np.asarray(g.hex_adjacency(A))
    RH = np.array([[1 if ref_dist(p, q) == 1 else 0 for q in xa] for p in xa])
    require(H.shape == RH.shape and np.array_equal(H, RH), "hex adjacency of {0} wrong: {1}", xa, H.tolist() if H.size < 50 else "(large)")
    S = np.asarray(g.square_adjacency(A))
    RS = np.array([[1 if abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1 else 0 for q in xa] for p in xa])
    require(S.shape == RS.shape and np.array_equal(S, RS), "square adjacency of {0} wrong", xa)
    require(np.array_equal(A, A0) and np.array_equal(B, B0), "coordinate input modified")


SUBS = [Sub("near_pairs", strat_near, check_pair, 1500, 20000), Sub("any_pairs", strat_any, check_pair, 1000, 15000),
        Sub("tables", strat_table, check_table, 150, 1500)]


