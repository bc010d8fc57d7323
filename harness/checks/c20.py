from core import *
from gens import *
import numpy as np
from hypothesis import strategies as st
from refs import grid_sas
from checks.c17 import snapshot

RULE = ("cases are a grid world with features, walls and agents, drawn into a pixel buffer which is sampled at every state's place; "
        "non-trivial: the grid has at least 2 states and a feature, wall, agent, trajectory or value sets some states apart from others")
ASSUMPTIONS = ["feature values lie in [0, 1] (drawn as opacity)", "square cells are drawn at their (column, row) coordinates",
               "hexagons are placed by the world's own state_to_position, which must put exactly the adjacent states next to each other"]
COLS = ["red", "lime", "blue", "magenta"]
RGB = {"red": (255, 0, 0), "lime": (0, 255, 0), "blue": (0, 0, 255), "magenta": (255, 0, 255), "white": (255, 255, 255)}


@st.composite
def strat(draw, tier, what):
    w = draw(grid_worlds(max_states=30, max_side=7, values=st.sampled_from([1, 1, 1, 0, 0.5, 0.25]), n_feat=(1, 3), big=0))      # every cell must be some pixels wide
    k = draw(st.sampled_from([1, 2, 2, 3, 5] if what in ("agents", "agent values") else [0, 1, 1, 2, 2, 3, 5]))
    A = draw(agent_specs(k, len(w["features"]), algorithms=("vi",)))
    return dict(w=w, agents=A, bare=draw(st.booleans()), own_ax=draw(bools(3)), moves=draw(st.lists(raw, max_size=4)), what=what,
                earlier=draw(st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(["plot", "values", "hidden"]), min_size=1, max_size=2))), pick=draw(raw), via_env=draw(st.booleans()), flat=draw(bools(1)), walk=draw(paths(st.lists(raw, max_size=6), (9, 14))), start=draw(raw),
                values=draw(st.one_of(st.lists(st.integers(-5, 5), min_size=1, max_size=30), st.lists(st.floats(-50, 50, allow_nan=False, width=16), min_size=1, max_size=30))))


class Picture:
    def __init__(self, ax):
        fig = ax.figure
        fig.canvas.draw()
        self.buf = np.asarray(fig.canvas.buffer_rgba()).astype(int)[..., :3]
        self.ax = ax

    def window(self, xy, r=0):
        px, py = self.ax.transData.transform((float(xy[0]), float(xy[1])))
        H, W = self.buf.shape[:2]
        i, j = int(H - 1 - np.floor(py)), int(np.floor(px))
        require(0 <= i < H and 0 <= j < W, "the place {0} lies outside the picture", tuple(float(v) for v in xy))
        return self.buf[max(0, i - r):i + r + 1, max(0, j - r):j + r + 1].reshape(-1, 3)

    def at(self, xy):
        return self.window(xy)[0]


def close(p, q, tol=9):
    return max(abs(int(a) - int(b)) for a, b in zip(p, q)) <= tol


def places(c, mdp):
    """Where each state's cell is; checks that hexagons lie next to each other exactly if adjacent."""
    w, h = c["w"]["shape"]
    n = w * h
    pos = [tuple(float(v) for v in mdp.state_to_position(s)) for s in range(n)]
    if c["w"]["world"] == "square":
        for s in range(n):
            require(pos[s] == (s // h, s % h), "state {0} is placed at {1}, expected column {2}, row {3}", s, pos[s], s // h, s % h)
        return pos
    if n > 1:
        P = np.array(pos)
        D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
        np.fill_diagonal(D, np.inf)
        adj = grid_sas("hex", (w, h), False).any(axis=1)
        near = D <= D.min() * 1.002
        require(D.min() > 0, "two states share a place")
        require(np.array_equal(near, adj.astype(bool)), "hexagons drawn next to each other are not the adjacent states: {0}", np.argwhere(near != adj.astype(bool)).tolist()[:6])
    return pos


def check(c, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    ctx.touched = True
    plt.close("all")
    try:
        _check(c, ctx, plt)
    finally:
        plt.close("all")


def _check(c, ctx, plt):
    A = c["agents"]
    nf = len(c["w"]["features"])
    n = world_n_states(c["w"])
    what = c["what"]
    if not A and c["bare"]:
        mdp = build_world(c["w"])
        env, names = None, []
    else:
        env, mdp, names = build_env(c["w"], A)
    walls = np.asarray(mdp.walls).astype(bool)
    sas = np.asarray(mdp.sas)
    for m in c["moves"]:
        if names:
            env.set_agent_position(names[m % len(names)], int((m // 7) % n))
    if what == "agents" and not names:
        what = "default"
    if what == "agent values":
        if names:
            for x in names:
                env.fit(x)
        else:
            what = "values"
    F = np.array(mdp.features, copy=True)[:nf]
    snap = lambda: (snapshot(env, mdp, names) if env else dict(features=np.array(mdp.features), sas=np.array(mdp.sas), walls=np.array(mdp.walls)))
    before = snap()
    via_env = c["via_env"] and env is not None
    target = env if via_env else mdp
    for e in c.get("earlier", []):      # earlier pictures of the same world leave no trace in later ones
        if e == "plot":
            mdp.plot()
        elif n > 1:
            some = [tuple(int(q) for q in np.unravel_index((c["pick"] + 3 * j) % n, tuple(c["w"]["shape"]))) for j in range(max(1, n // 3))]
            mdp.plot_state_values(np.arange(n, dtype=float), **(dict(hide_idx=some) if e == "hidden" and c["w"]["world"] == "hex" else {}))
        ctx.label("earlier " + e)
        plt.close("all")
    kw = {}
    if c["own_ax"]:
        kw["ax"] = plt.subplots()[1]
    wall_kw = (lambda col: dict(mdp_plotting_kwargs=dict(wall_colour=col))) if via_env else (lambda col: dict(wall_colour=col))
    ctx.label(what, c["w"]["world"], "%d agents" % len(names), "walls" if walls.any() else "no walls")

    def pic(ax):
        if c["own_ax"]:
            require(ax is kw["ax"], "the axes given were not used")
        return Picture(ax)
    if what == "feature":
        f = c["pick"] % nf
        alphas = [0] * nf
        alphas[f] = 1
        cols = list(COLS[:nf])
        ax = target.plot(colours=[COLS[0] if i == f else COLS[1] for i in range(nf)], alphas=alphas, **wall_kw("blue"), **({} if not via_env else dict(agent_plotting_kwargs=dict(alpha=0))), **kw)
        P, pos = pic(ax), places(c, mdp)
        for s in range(n):
            v = F[f, s]
            exp = RGB["blue"] if walls[s] else (255, 255 * (1 - v), 255 * (1 - v))
            got = P.at(pos[s])
            require(close(got, exp), "feature {0} is {1} in state {2} (wall: {3}), whose place is drawn in {4}, expected {5}", f, v, s, bool(walls[s]), got.tolist(), [int(e) for e in exp])
        ctx.nontrivial(n > 1 and (len(set(F[f].tolist())) > 1 or 0 < walls.sum() < n))
    elif what == "default":
        ax = target.plot(**({} if not via_env else dict(agent_plotting_kwargs=dict(alpha=0))), **kw)
        P, pos = pic(ax), places(c, mdp)
        for s in range(n):
            held = walls[s] or (F[:, s] > 0).any()
            got = P.at(pos[s])
            white = close(got, RGB["white"], 3)
            require(white != held, "state {0} holds {1} but its place is drawn in {2}", s, "a wall" if walls[s] else "features %s" % F[:, s].tolist(), got.tolist())
        ctx.nontrivial(n > 1 and len({bool(walls[s] or (F[:, s] > 0).any()) for s in range(n)}) > 1)
    elif what == "agents":
        col = {x: COLS[i % 4] for i, x in enumerate(names)}
        ax = env.plot(alphas=[0] * nf, agent_markers={x: "s" for x in names}, agent_colours=col, mdp_plotting_kwargs=dict(wall_colour="white"), **kw)
        P, pos = pic(ax), places(c, mdp)
        at = {}
        for x in names:
            at.setdefault(int(env.agents[x].position), []).append(col[x])
        for s in range(n):
            got = P.at(pos[s])
            exp = at.get(s, ["white"])
            require(any(close(got, RGB[e]) for e in exp), "state {0} holds the agents {1} but its place is drawn in {2}", s, at.get(s), got.tolist())
        ctx.nontrivial(n > 1)
    elif what in ("trajectory", "sequence"):
        cur = int(c["start"] % n)
        tr = [cur]
        for m in c["walk"]:
            nxt = np.where(sas[cur].sum(axis=0) > 0)[0]
            if not len(nxt):
                break
            cur = tr[-2] if len(tr) > 1 and m % 3 == 0 and tr[-2] in nxt else int(nxt[m // 3 % len(nxt)])      # often back the way it came
            tr.append(cur)
        ax = mdp.plot(alphas=[0] * nf, wall_colour="white", **kw)
        if what == "trajectory":
            target.plot_trajectory(tr, ax=ax, colour="red")
            P, pos = pic(ax), places(c, mdp)
            seen, back = set(), False
            for a, b in zip(tr, tr[1:]):
                if a == b:
                    continue
                for t in (0.1, 0.2, 0.3, 0.4):
                    q = (pos[a][0] + t * (pos[b][0] - pos[a][0]), pos[a][1] + t * (pos[b][1] - pos[a][1]))
                    win = P.window(q, 1)
                    require(((win[:, 0] > 200) & (win[:, 1] < 200) & (win[:, 2] < 200)).any(), "no arrow from state {0} to {1} is drawn (trajectory {2})", a, b, tr)
                d = np.hypot(pos[b][0] - pos[a][0], pos[b][1] - pos[a][1])
                q = tuple(pos[b][i] + 0.1 * (pos[b][i] - pos[a][i]) / d for i in (0, 1))      # within the head of the arrow, just past its end
                win = P.window(q, 1)
                require(((win[:, 0] > 200) & (win[:, 1] < 200) & (win[:, 2] < 200)).any(), "the arrow from state {0} to {1} has no head at {1} (trajectory {2})", a, b, tr)
                back = back or (b, a) in seen
                seen.add((a, b))
            if back:
                ctx.label("there and back")
            for s in range(n):
                if s not in tr:
                    require(close(P.at(pos[s]), RGB["white"]), "state {0}, not on the trajectory {1}, is drawn in {2}", s, tr, P.at(pos[s]).tolist())
        else:
            target.plot_sequence(tr, ax=ax)
            ax.figure.canvas.draw()
            pos = places(c, mdp)
            T = {}
            for t in ax.texts:
                T.setdefault(t.get_text(), []).append(t.get_position())
            require(sorted(T) == sorted(str(i + 1) for i in range(len(tr))) and all(len(v) == 1 for v in T.values()), "step numbers {0} for a trajectory of {1} states", sorted(T), len(tr))
            for i, s in enumerate(tr):
                x, y = T[str(i + 1)][0]
                d = [np.hypot(x - p[0], y - p[1]) for p in pos]
                require(int(np.argmin(d)) == s and d[s] < 0.5, "step {0} of {1} is written at state {2}", i + 1, tr, int(np.argmin(d)))
        ctx.nontrivial(len(tr) > 1)
    else:
        if what == "agent values":
            x = names[c["pick"] % len(names)]
            v = np.array(env.agents[x].algorithm.values, dtype=float, copy=True)
        else:
            v = np.array([c["values"][i % len(c["values"])] + (i // len(c["values"])) for i in range(n)], dtype=float)
        if c["flat"] and what != "agent values":
            v[:] = v[0]
        if not np.isfinite(v).all() or 0 < v.max() - v.min() < 1e-6:
            ctx.label("indistinct values")
            return
        given = v.copy()
        ax = env.plot_state_values(x, cmap="gray", **kw) if what == "agent values" else mdp.plot_state_values(given, cmap="gray", **kw)
        require(np.array_equal(given, v), "plotting changed the values given")
        P, pos = pic(ax), places(c, mdp)
        for s in range(n):
            got = P.at(pos[s])
            if v.max() == v.min():
                require(close(got, P.at(pos[0])) and not close(got, RGB["white"], 3), "all values are {0}; state {1} is drawn in {2}, state 0 in {3}", v[s], s, got.tolist(), P.at(pos[0]).tolist())
                continue
            e = 255 * (v[s] - v.min()) / (v.max() - v.min())
            require(close(got, (e, e, e)), "state {0} has value {1} (of {2} to {3}); its place is drawn in {4}, expected {5}", s, v[s], v.min(), v.max(), got.tolist(), int(e))
        ctx.nontrivial(n > 1)
    after = snap()
    for key in before:
        b, a = before[key], after[key]
        require(np.array_equal(a, b) if isinstance(b, np.ndarray) else a == b, "plotting changed {0}", key)


def sub(what, quick):
    return Sub(what.replace(" ", "_"), lambda tier: strat(tier, what), check, quick, quick * 12)


SUBS = [sub("feature", 50), sub("default", 35), sub("agents", 40), sub("trajectory", 40), sub("sequence", 30), sub("values", 40), sub("agent values", 30)]
