from core import *
from gens import *
from envmodel import *

RULE = ("cases are an environment whose agents consume features or each other plus a history of calls; non-trivial: at least one "
        "consumption happened and the agent later revisited a cell it had emptied, or two different features/agents were consumed")
ASSUMPTIONS = ["positive feature values count as present; zero and negative ones do not (as implemented)"]

cons_values = st.sampled_from([1, 1, 1, 1, 0.5, 2, -1, 0, 0.001, 7])
pos_weights = st.sampled_from([1, 2, 3, 0.5, 5, -1, 0])


@st.composite
def strat(draw, tier):
    c = draw(env_cases(tier, values=cons_values, algorithms=("vi", "vi", "vi", "null"), weight=pos_weights, max_states=16, n_feat=(1, 4)))
    for a in c["agents"]:
        if draw(bools(2)) and a["consumes"]:
            a["consumes"] = a["consumes"] + [a["consumes"][0]]          # listed twice
    if draw(bools(3)):
        for r in c["w"]["features"]:
            if draw(st.booleans()):
                r["fill"] = 1
    c["prefit"] = draw(bools(9))
    c["ops"] = draw(histories(len(c["agents"]), 4, 16 if tier == "quick" else 30, bad=False))
    return c


def check(c, ctx):
    d = Driver(c, ctx, {"consume"})
    if c["prefit"]:
        for i in range(d.k):
            d.fit(i)
        d.verify("fitting")
    for op in c["ops"]:
        d.apply(op)
    ctx.label("%d agents" % d.k, "events %s" % min(d.model.events, 3), "revisits %s" % min(d.model.revisits, 2))
    ctx.nontrivial(d.model.events >= 2 or (d.model.events and d.model.revisits))


SUBS = [Sub("history", lambda tier: strat(tier), check, 350, 3500)]
