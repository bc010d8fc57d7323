"""
A reference model of an environment's bookkeeping and a driver which applies generated histories of calls to the real
environment and to the model.  What is compared is selected by *aspects*:
  move    positions, returned positions, histories, validity and greediness of moves, agents' indicator features, rejections
  consume the whole feature array and all consumption counts
"""
import numpy as np
from hypothesis import strategies as st
from core import require, fail, Violation
from gens import *
import refs


class Model:
    def __init__(self, F, starts, consumes, n_own):
        self.n = F.shape[1]
        self.n_own = n_own
        self.k = len(starts)
        self.consumes = consumes
        self.starts = list(starts)
        self.F = np.vstack([F, np.zeros((self.k, self.n))])
        for i, s in enumerate(starts):
            self.F[n_own + i, s] = 1
        self.F0 = self.F.copy()
        self.reset()
        self.events = 0           # consumption events
        self.revisits = 0
        self.eaten_cells = set()

    def reset(self):
        self.pos = list(self.starts)
        self.hist = [[s] for s in self.starts]
        self.counts = np.zeros((self.k, self.n_own + self.k))
        self.F = self.F0.copy()
        self.eaten_cells = set()

    def place(self, i, s):
        self.pos[i] = s
        self.F[self.n_own + i, :] = 0
        self.F[self.n_own + i, s] = 1

    def step(self, i, s):
        self.place(i, s)
        self.hist[i].append(s)
        for f in self.consumes[i]:
            if self.F[f, s] > 0:
                self.F[f, s] = 0
                self.counts[i, f] += 1
                self.events += 1
                self.eaten_cells.add((f, s))
            elif (f, s) in self.eaten_cells:
                self.revisits += 1


@st.composite
def histories(draw, n_agents, min_ops=3, max_ops=14, walls=False, multi=True, bad=True):
    kinds = ["step"] * 8 + ["fit"] * 2 + ["setpos", "setpos", "reset", "proba", "get", "get"]
    if multi:
        kinds += ["multi", "multi", "multi"]
    if walls:
        kinds += ["wall"]
    if bad:
        kinds += ["bad", "badpos"]
    out = []
    for _ in range(draw(upto(min_ops, max_ops, max_ops + 16))):
        k = draw(st.sampled_from(kinds))
        i = draw(st.integers(0, n_agents - 1))
        if k == "multi":
            out.append([k, i, draw(st.integers(1, 4)), draw(st.booleans()), draw(st.booleans())])
        elif k == "setpos":
            out.append([k, i, draw(raw)])
        elif k == "wall":
            out.append([k, draw(st.lists(raw, max_size=4))])
        elif k == "bad":
            out.append([k, draw(st.sampled_from(["fit", "step", "multi", "proba", "setpos", "hist", "q", "pi", "pi_p"]))])
        elif k == "badpos":
            out.append([k, i, draw(st.sampled_from([0, 1, 7, -1, -2, 1000]))])
        elif k == "reset":
            out.append([k])
        else:
            out.append([k, i])
    return out


@st.composite
def env_cases(draw, tier, max_agents=4, walls=True, values=feature_values, algorithms=("vi", "vi", "vi", "null", "mcts"), stochastic=True, min_agents=1,
              n_feat=(1, 3), consume_p=True, max_states=30, weight=weights):
    if draw(bools(3)):
        w = draw(table_worlds(max_states=8, max_actions=4, stochastic=stochastic, n_feat=n_feat, values=values))
    else:
        w = draw(grid_worlds(max_states=max_states if tier == "quick" else max_states + 15, max_side=7, n_feat=n_feat, values=values, walls=walls, n_cells=10))
    k = draw(upto(min_agents, max_agents, 6 if max_agents == 4 else None))
    A = draw(agent_specs(k, len(w["features"]), algorithms=algorithms, weight=weight))
    for a in A:
        if a["algorithm"] == "mcts":
            a["mcts"] = dict(n_iter=draw(st.integers(1, 6)), n_steps=draw(st.integers(1, 4)), C=1, interactive=False)
    return dict(w=w, agents=A)


class Driver:
    def __init__(self, case, ctx, aspects):
        self.case, self.ctx, self.aspects = case, ctx, aspects
        w = case["w"]
        self.n = world_n_states(w)
        self.F_own = build_features(w["features"], self.n)
        ctx.touched = True
        self.env, self.mdp, self.names = build_env(w, case["agents"])
        self.specs = case["agents"]
        self.k = len(self.specs)
        self.model = Model(self.F_own, [a["start"] % self.n for a in self.specs], [list(a["consumes"]) for a in self.specs], self.F_own.shape[0])
        self.fitted = [False] * self.k
        self.steps = 0
        self.verify("construction")

    # ------------------------------------------------------------ comparison
    def verify(self, what):
        m, env = self.model, self.env
        if "move" in self.aspects:
            for i, nm in enumerate(self.names):
                p = env.agents[nm].position
                require(int(p) == m.pos[i], "{0}: agent {1} reported at {2}, expected {3}", what, nm, p, m.pos[i])
                h = [int(x) for x in env.get_agent_position_history(nm)]
                require(h == m.hist[i], "{0}: history of {1} is {2}, expected {3}", what, nm, h, m.hist[i])
                row = np.asarray(self.mdp.features)[m.n_own + i]
                require(np.array_equal(row, m.F[m.n_own + i]), "{0}: indicator of {1} marks {2}, expected {3}", what, nm, np.where(row)[0].tolist(), np.where(m.F[m.n_own + i])[0].tolist())
        if "consume" in self.aspects:
            F = np.asarray(self.mdp.features)
            require(F.shape == m.F.shape, "{0}: feature array has shape {1}, expected {2}", what, F.shape, m.F.shape)
            if not np.array_equal(F, m.F):
                f, s = (int(x) for x in np.argwhere(F != m.F)[0])
                fail("{0}: feature {1} of state {2} is {3}, expected {4}", what, f, s, F[f, s], m.F[f, s])
            for i, nm in enumerate(self.names):
                c = np.asarray(env.agents[nm].consumed, dtype=float)
                require(np.array_equal(c, m.counts[i]), "{0}: consumption counts of {1} are {2}, expected {3}", what, nm, c.tolist(), m.counts[i].tolist())

    # ------------------------------------------------------------ helpers
    def policy_options(self, i, s, q):
        """(set of actions the policy may take in s, True if one of them is currently impossible) from the agent's action values"""
        sas = np.asarray(self.mdp.sas)
        row = np.asarray(q, dtype=float)[s]
        v = np.where(np.isnan(row), -np.inf, row)
        if not np.isfinite(v).any():
            # the plan knows no action here: refusing is fine, and so is (after a wall edit) any currently valid move
            return ([a for a in range(sas.shape[1]) if sas[s, a].any()] if not np.isnan(row).all() else []), True
        if self.specs[i]["selector"] == "max":
            acts = [int(a) for a in np.where(v == v.max())[0]]
        else:
            acts = [int(a) for a in np.where(np.isfinite(v))[0]]
        ok = [a for a in acts if sas[s, a].any()]
        return ok, len(ok) < len(acts)

    def reach(self, s, acts):
        sas = np.asarray(self.mdp.sas)
        return {int(t) for a in acts for t in np.where(sas[s, a] > 0)[0]}

    def can_search(self, i):
        """tree search is only asked for where play never gets stuck"""
        sas = np.asarray(self.mdp.sas)
        if ((sas > 0) & (sas < 1)).any():
            return False
        seen, todo = {self.model.pos[i]}, [self.model.pos[i]]
        while todo:
            s = todo.pop()
            nx = np.where(sas[s].sum(axis=0) > 0)[0]
            if len(nx) == 0:
                return False
            for t in nx:
                if int(t) not in seen:
                    seen.add(int(t)); todo.append(int(t))
        return True

    def fit(self, i):
        if self.specs[i]["algorithm"] == "mcts" and not self.can_search(i):
            return False
        self.env.fit(self.names[i])
        self.fitted[i] = True
        return True

    def is_vi_max(self, i):
        return self.specs[i]["algorithm"] == "vi" and self.specs[i]["selector"] == "max"

    # ------------------------------------------------------------ operations
    def apply(self, op):
        k = op[0]
        env, m = self.env, self.model
        i = op[1] if len(op) > 1 and isinstance(op[1], int) else None
        nm = self.names[i % self.k] if i is not None else None
        if i is not None:
            i %= self.k
        what = "%s" % (op,)
        if k == "fit":
            self.fit(i)
        elif k == "step":
            self.op_step(i, nm, what)
        elif k == "multi":
            self.op_multi(i, nm, op, what)
        elif k == "setpos":
            s = op[2] % self.n
            env.set_agent_position(nm, s)
            m.place(i, s)
        elif k == "reset":
            env.reset()
            m.reset()
        elif k == "proba":
            if self.fitted[i]:
                ok = self.policy_options(i, m.pos[i], env.get_agent_q_values(nm))
                if ok[0] and not ok[1]:
                    env.step_proba(nm)
        elif k == "get":
            self.op_get(i, nm, what)
        elif k == "wall":
            if self.case["w"]["world"] != "table":
                self.mdp.walls = wall_array(op[1], self.n)
        elif k == "bad":
            bad = "no such agent"
            f = {"fit": lambda: env.fit(bad), "step": lambda: env.step(bad), "multi": lambda: env.step_multi(bad, 1), "proba": lambda: env.step_proba(bad),
                 "setpos": lambda: env.set_agent_position(bad, 0), "hist": lambda: env.get_agent_position_history(bad), "q": lambda: env.get_agent_q_values(bad),
                 "pi": lambda: env.get_agent_pi(bad), "pi_p": lambda: env.get_agent_pi_p(bad)}[op[1]]
            if "move" in self.aspects:
                self.ctx.expect_error(f, "unknown agent (%s)" % op[1])
            else:
                return
        elif k == "badpos":
            p = self.n + op[2] if op[2] >= 0 else op[2]
            if "move" in self.aspects:
                self.ctx.expect_error(lambda: env.set_agent_position(nm, p), "position %s in a world of %s states" % (p, self.n))
            else:
                return
        self.verify(what)

    def op_get(self, i, nm, what):
        """the policy reported for an agent is that of its action values and rule"""
        env = self.env
        if not self.fitted[i]:
            if "move" in self.aspects:
                self.ctx.expect_error(lambda: env.get_agent_pi(nm), "policy of an agent that was never fitted")
                self.ctx.expect_error(lambda: env.get_agent_pi_p(nm), "action probabilities of an agent that was never fitted")
            return
        pi, p, q = env.get_agent_pi(nm), env.get_agent_pi_p(nm), env.get_agent_q_values(nm)
        if "move" not in self.aspects or pi is None or p is None:      # none yet since the last reset
            return
        ref = refs.policy_rows(q, self.specs[i]["selector"], self.specs[i].get("temperature", 1.0))
        pi, p = np.asarray(pi), np.asarray(p, dtype=float)
        require(pi.shape == (self.n,) and p.shape == np.asarray(q).shape, "{0}: policy of shape {1}, probabilities of shape {2}", what, pi.shape, p.shape)
        for s, row in enumerate(ref):
            if row is None or np.isnan(row).any():
                continue
            require(np.allclose(p[s], row, rtol=1e-7, atol=1e-9), "{0}: reported action probabilities {1} in state {2}, its action values {3} imply {4}", what, p[s].tolist(), s,
                    np.asarray(q)[s].tolist(), row.tolist())
            require(row[int(pi[s])] > 0, "{0}: reported action {1} in state {2} has probability 0", what, int(pi[s]), s)
        self.ctx.label("policy compared")

    def op_step(self, i, nm, what):
        env, m = self.env, self.model
        s = m.pos[i]
        acts, excuse = ([], True)
        if self.fitted[i]:
            acts, excuse = self.policy_options(i, s, np.array(env.get_agent_q_values(nm), copy=True))
        try:
            ret = env.step(nm)
        except Exception:
            if not excuse:
                raise
            if "move" in self.aspects:
                self.ctx.label("step refused")
            return
        if "move" in self.aspects:
            require(self.fitted[i], "{0}: agent that was never fitted could be stepped", what)
        new = int(env.agents[nm].position)
        if not acts:
            if "move" in self.aspects:
                require(new == s, "{0}: agent {1} has no valid move in state {2} but moved to {3}", what, nm, s, new)
            h = env.get_agent_position_history(nm)
            if len(h) == len(m.hist[i]) + 1:
                m.hist[i].append(s)
            return
        if "move" in self.aspects:
            require(int(ret) == new, "{0}: returned position {1}, agent is at {2}", what, ret, new)
            require(new in self.reach(s, acts), "{0}: agent {1} moved {2} -> {3}; its policy allows actions {4} leading to {5}", what, nm, s, new, acts, sorted(self.reach(s, acts)))
        m.step(i, new)
        self.steps += 1

    def op_multi(self, i, nm, op, what):
        env, m = self.env, self.model
        _, _, count, refit, stop = op
        if refit and self.specs[i]["algorithm"] == "mcts" and not self.can_search(i):
            return
        before = len(m.hist[i])
        q = np.array(env.get_agent_q_values(nm), copy=True) if self.fitted[i] else None
        err = None
        ret = None
        try:
            ret = env.step_multi(nm, count, refit=refit, stop_on_caught=stop)
        except Exception as e:
            err = e
        grown = [int(x) for x in env.get_agent_position_history(nm)][before:]
        if "move" in self.aspects:
            require(len(grown) <= count, "{0}: more moves than asked for: {1}", what, grown)
            if not self.fitted[i] and not refit:
                require(err is not None and not grown, "{0}: agent that was never fitted could be stepped", what)
        sas = np.asarray(self.mdp.sas)
        excuse = not self.fitted[i] and not refit
        for t in grown:
            s = m.pos[i]
            if "move" in self.aspects:
                if q is not None and not refit:
                    acts, _ = self.policy_options(i, s, q)
                    require(t in self.reach(s, acts), "{0}: agent {1} moved {2} -> {3}; its policy allows {4}", what, nm, s, t, sorted(self.reach(s, acts)))
                else:
                    require(sas[s, :, t].any(), "{0}: agent {1} moved {2} -> {3}, which no action does", what, nm, s, t)
                    if self.is_vi_max(i):
                        r = np.array(self.specs[i]["reward"], dtype=float) @ m.F
                        _, Q = refs.solve_optimal(sas, r, self.specs[i].get("discount", 0.9))
                        best = max(Q[s, a] for a in range(sas.shape[1]) if sas[s, a, t] > 0)
                        require(best >= Q[s].max() - 1e-4 * (1 + abs(Q[s].max())), "{0}: greedy agent {1} moved {2} -> {3} worth {4}, best is {5}", what, nm, s, t, best, Q[s].max())
            m.step(i, t)
            self.steps += 1
        if refit and err is None:
            self.fitted[i] = True
        if err is not None:
            s = m.pos[i]
            if not sas[s].any():
                excuse = True
            if not excuse and q is not None and not refit:
                excuse = self.policy_options(i, s, q)[1]
            if not excuse:
                raise err
            self.ctx.label("multi refused")
            if refit:
                self.fitted[i] = getattr(env.agents[nm].algorithm, "fit_complete", False)
        elif "move" in self.aspects:
            if not stop:
                require(len(grown) == count, "{0}: made {1} moves", what, len(grown))
            if isinstance(ret, list):
                require([int(x) for x in ret] == grown, "{0}: returned {1}, moved {2}", what, ret, grown)
