"""
Independent reference models (oracles).  Nothing here imports the code under test.
"""
import math
from collections import deque
import numpy as np

SQ_DIRS = [(0, 1), (1, 0), (0, -1), (-1, 0)]


def hex_centre(x, y):
    """Centre of a hexagon (unit outer radius, flat top, even columns shifted half a cell up)."""
    return 1.5 * x, math.sqrt(3) * (y + (0.5 if x % 2 == 0 else 0.0))


def square_step(x, y, a):
    dx, dy = SQ_DIRS[a]
    return x + dx, y + dy


def hex_step(x, y, a):
    """Cell reached by moving one cell in direction a (clockwise from straight up), found geometrically."""
    cx, cy = hex_centre(x, y)
    ang = math.radians(90 - 60 * a)
    tx, ty = cx + math.sqrt(3) * math.cos(ang), cy + math.sqrt(3) * math.sin(ang)
    for nx in (x - 1, x, x + 1):
        for ny in (y - 1, y, y + 1):
            px, py = hex_centre(nx, ny)
            if abs(px - tx) < 1e-6 and abs(py - ty) < 1e-6:
                return nx, ny
    raise AssertionError("no such cell")


def grid_sas(kind, shape, selft, walls=None):
    """Reference transition array of a grid world."""
    w, h = shape
    n = w * h
    na = 4 if kind == "square" else 6
    step = square_step if kind == "square" else hex_step
    sas = np.zeros((n, na + (1 if selft else 0), n))
    for x in range(w):
        for y in range(h):
            for a in range(na):
                nx, ny = step(x, y, a)
                if 0 <= nx < w and 0 <= ny < h:
                    sas[x * h + y, a, nx * h + ny] = 1
            if selft:
                sas[x * h + y, na, x * h + y] = 1
    if walls is not None:
        sas = apply_walls(sas, walls)
    return sas


def apply_walls(sas, walls):
    sas = sas.copy()
    for s in range(sas.shape[0]):
        if walls[s]:
            sas[s] = 0
            sas[:, :, s] = 0
    return sas


def hex_bfs(start, radius):
    """Distances on the unbounded hex grid up to a radius."""
    d = {start: 0}
    q = deque([start])
    while q:
        c = q.popleft()
        if d[c] == radius:
            continue
        for a in range(6):
            nb = hex_step(c[0], c[1], a)
            if nb not in d:
                d[nb] = d[c] + 1
                q.append(nb)
    return d


# ------------------------------------------------------------------ dynamic programming
def solve_optimal(sas, r, gamma):
    """Exact optimal values by policy iteration over available actions; reward is received in the entered state.
    Returns V, Q (unavailable: -inf)."""
    n, m, _ = sas.shape
    avail = sas.sum(axis=2) > 0
    pol = np.where(avail.any(axis=1), avail.argmax(axis=1), -1)
    ER = sas @ r                      # expected immediate reward (n, m)
    for _ in range(10000):
        P = np.zeros((n, n))
        R = np.zeros(n)
        for s in range(n):
            if pol[s] >= 0:
                P[s] = sas[s, pol[s]]
                R[s] = ER[s, pol[s]]
        V = np.linalg.solve(np.eye(n) - gamma * P, R)
        Q = ER + gamma * (sas @ V)
        Q[~avail] = -np.inf
        new = pol.copy()
        for s in range(n):
            if pol[s] >= 0:
                b = int(np.argmax(Q[s]))
                if Q[s, b] > Q[s, pol[s]] + 1e-11 * (1 + abs(Q[s, b])):
                    new[s] = b
        if np.array_equal(new, pol):
            return V, Q
        pol = new
    raise AssertionError("policy iteration did not converge")


def softmax_row(q, temperature):
    """Softmax over finite entries in extended precision; -inf entries get 0."""
    q = np.asarray(q, dtype=np.longdouble)
    m = np.max(q)
    e = np.array([np.exp((v - m) / np.longdouble(temperature)) if np.isfinite(v) else np.longdouble(0) for v in q])
    return np.asarray(e / e.sum(), dtype=float)


def policy_rows(q, rule, temperature=1.0):
    """Reference policy: NaN rows for states without any estimated action; -inf/NaN entries unavailable.
    Rows with no available (finite) action at all but some estimate are returned as None (unspecified)."""
    out = []
    for row in np.asarray(q, dtype=float):
        if np.all(np.isnan(row)):
            out.append(np.full(len(row), np.nan))
            continue
        v = np.where(np.isnan(row), -np.inf, row)
        if np.all(np.isneginf(v)):
            out.append(None)
            continue
        if rule == "max":
            best = v == v.max()
            out.append(best / best.sum())
        else:
            out.append(softmax_row(v, temperature))
    return out


# ------------------------------------------------------------------ planning layout
def plan_layout(current_move, n_turns, n_moves, total):
    """Moves per turn: `total` planning moves laid from the current move onwards over turns of n_moves."""
    out = []
    pos = current_move
    left = total
    for t in range(n_turns):
        room = n_moves - (pos if t == 0 else 0)
        k = min(room, left)
        out.append(k)
        left -= k
    return out
