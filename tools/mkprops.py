#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
                   mechanism=[dict(zip(("name","where"),m)) for m in mech], observe_at=list(observe), hook_needed=None)))

p("C01","Grid worlds move agents exactly to geometric neighbours",
  "For every grid shape, a square or hexagonal grid world without walls lets each action lead from a cell to exactly the one geometrically neighbouring cell in that action's direction (the same direction in every cell, opposite directions undo each other), and to nothing where there is no such cell. State numbers and grid coordinates are a bijection in row-major order, and enabling self-transitions adds exactly one further, last action which stays in place and changes nothing else. Adjacency, the list of valid actions and the next state returned for an action all agree with these transitions.",
  ["inputs","configurations"],"all grid shapes (including 1xN, odd/even widths and non-square), both grid kinds, self-transitions on/off, every state and action",
  "The tests pin one 2x2 transition table per grid kind and one cell (33) of a 15x10 grid; other parities, borders, aspect ratios and self-transition tables are never compared with geometry.",
  ["maMDP/mdp.py","maMDP/grid_utils.py"],
  [("SquareGridMDP/HexGridMDP._get_sas","maMDP/mdp.py"),("get_action_from_states_hex/square","maMDP/grid_utils.py"),("grid_coords","maMDP/grid_utils.py")],
  [("sas","state-action-state transition array","maMDP/mdp.py")],["MDP.sas","MDP.get_next_state","MDP.state_valid_actions","MDP.is_adjacent","GridMDP.state_to_idx/idx_to_state"])

p("C02","Hex distance is the true shortest-path metric",
  "For every pair of hexagonal cells, the reported distance equals the minimum number of single-cell moves between them on the unbounded hexagonal grid; so it is zero only for identical cells, symmetric and satisfies the triangle inequality. Pairwise distance tables agree entry by entry with single distances, and the hex and square adjacency matrices contain 1 exactly for pairs of cells one move apart and 0 elsewhere.",
  ["inputs"],"all pairs/triples of offset coordinates (any parity, negative too) and all coordinate lists",
  "Tests check about a dozen pairs around (3,3) and the diagonal/symmetry/sign of one 15x10 table, never the actual distances of far-apart or odd/even mixed cells.",
  ["maMDP/grid_utils.py"],[("offset_to_cube / cube_distance / offset_distance","maMDP/grid_utils.py"),("hex_dist, hex_adjacency, square_adjacency","maMDP/grid_utils.py")],
  [],["offset_distance","hex_dist","hex_adjacency","square_adjacency"])

p("C03","Walls seal states, and removing them restores the world exactly",
  "After any sequence of wall edits (assigning a wall array, adding walls by coordinates or coordinate ranges, which exclude their end, removing all walls), no transition enters or leaves a walled state, and every transition between unwalled states is exactly as in the unwalled world. Everything the world reports about connectivity (transition array, adjacency matrix, adjacency test, valid actions) agrees with the current walls, and the caller's own wall array is never modified. Malformed wall arrays are rejected and leave the current walls and transitions unchanged.",
  ["inputs","histories"],"all grids and custom deterministic MDPs, all wall sets, all sequences of wall edits",
  "No test constructs a wall.",
  ["maMDP/mdp.py"],[("walls setter rebuilds transitions from the saved original","maMDP/mdp.py"),("add_wall_xy, reset_walls","maMDP/mdp.py")],
  [("walls","1D wall indicator","maMDP/mdp.py"),("original sas","transitions without walls","maMDP/mdp.py")],["MDP.sas","MDP.adjacency","MDP.is_adjacent","MDP.state_valid_actions","MDP.walls"])

p("C04","Custom MDPs transition only as their probabilities say",
  "Any transition array of valid probabilities, deterministic or stochastic, is accepted together with matching features, and the next state drawn for a state and action always has positive probability there, with frequencies matching those probabilities and reproducible from the seed. Every available action is listed exactly once as valid, and states are reported adjacent exactly if some action leads from the first to the second with positive probability. An action without any successor is refused with an error instead of moving anywhere. Transition, feature or wall inputs of wrong type, shape or range are rejected with an error.",
  ["inputs","configurations"],"all transition arrays (states x actions x states), seeds, states and actions; all malformed variants",
  "Tests only build grid worlds; neither the general MDP class nor stochastic transitions are exercised.",
  ["maMDP/mdp.py"],[("sas/features setters validate","maMDP/mdp.py"),("get_next_state","maMDP/mdp.py")],
  [("rng","seeded generator","maMDP/mdp.py")],["MDP()","MDP.get_next_state"])

p("C05","Agents only ever move along valid transitions and are tracked exactly",
  "Over any history of planning, stepping, repositioning and resetting several agents, each step moves exactly the named agent, to a state its chosen policy can reach by one valid transition (with the greedy rule: by an action of highest estimated value), and an agent with no valid move is not moved. The reported position, the returned positions, the position history (start followed by the state after each step) and the agent's own indicator feature in the world always agree. Other agents' positions and histories are untouched; out-of-range positions and unknown agents are rejected without effect.",
  ["histories","inputs"],"all worlds, 1-4 agents, action selectors and planners, and all call sequences",
  "tests/test_environments.py is empty: no test creates an environment or moves an agent.",
  ["maMDP/environments.py","maMDP/agents.py","maMDP/mdp.py"],[("AttachedAgent.step / position setter","maMDP/agents.py"),("Environment.step, step_multi, set_agent_position","maMDP/environments.py"),("update_agent_feature","maMDP/mdp.py")],
  [("position","current state of agent","maMDP/agents.py"),("position_history","start plus one entry per step","maMDP/agents.py")],["Environment.step","Environment.step_multi","Environment.get_agent_position_history","MDP.features"])

p("C06","Consumption removes exactly what was stepped on and counts it once",
  "When an agent steps into a state, exactly the features it consumes that are present (positive) in that state drop to zero and its per-feature consumption count rises by one for each; every other feature value in every state is left unchanged. A consumed feature stays gone and is not counted again until the environment is reset or, for an agent's indicator, until that agent moves again. Moving without consuming, planning, repositioning and probabilistic stepping never change features or counts (other than the moved agent's own indicator).",
  ["histories","inputs"],"all feature layouts (binary, fractional, negative), consumption lists, agents (including agents consuming agents) and call sequences",
  "No existing test consumes a feature.",
  ["maMDP/environments.py","maMDP/mdp.py"],[("Environment._consume_features","maMDP/environments.py"),("MDP.consume_features","maMDP/mdp.py")],
  [("consumed","per-agent, per-feature counts","maMDP/agents.py"),("features","feature array incl. agent indicators","maMDP/mdp.py")],["MDP.features","env.agents[...].consumed"])

p("C07","Reset restores the exact starting environment, every time",
  "After any history, resetting puts every agent at its original starting state with a history of just that state and zero consumption counts, and restores every feature of the world (consumed ones included) to its value when the environment was created. Resetting repeatedly, and acting and resetting again, gives the same result each time, and planning after a reset yields the same action values as in a freshly built identical environment. Walls and transitions are unaffected.",
  ["histories"],"all environments and call histories, with any number of resets in between",
  "No test resets an environment.",
  ["maMDP/environments.py","maMDP/agents.py","maMDP/mdp.py"],[("Environment.reset","maMDP/environments.py"),("AttachedAgent.reset","maMDP/agents.py"),("MDP.reset and the saved original features","maMDP/mdp.py")],
  [("original feature array","snapshot restored by reset","maMDP/mdp.py"),("starting position","restored by reset","maMDP/agents.py")],["Environment.reset"])

p("C08","Value iteration returns the optimal values and action values",
  "For every MDP (stochastic, with dead ends and with actions unavailable in some states), reward weights of any sign and discount in (0,1), a converged solve returns, within the convergence tolerance, the unique optimal discounted values over the available actions, and for each available action its optimal action value; unavailable actions get minus infinity and states without any action have value zero. Hence the greedy policy is optimal. Discounts outside (0,1) are rejected, and action values precomputed for every possible prey position equal those of solving each position separately.",
  ["inputs","configurations"],"all transition arrays, feature arrays, reward weights, discounts and tolerances at which the iteration limit suffices",
  "Tests check a single one-step backup on a 4-state grid with non-negative reward; the solver itself is never run.",
  ["maMDP/algorithms/dynamic_programming.py","maMDP/algorithms/mcts.py"],[("solve_value_iteration / state_value_iterator","maMDP/algorithms/dynamic_programming.py"),("ValueIteration","maMDP/algorithms/dynamic_programming.py"),("solve_all_value_iteration","maMDP/algorithms/mcts.py")],
  [],["solve_value_iteration","Environment.fit","Environment.get_agent_q_values"])

p("C09","Soft value iteration satisfies the soft Bellman equations",
  "For every MDP, reward weights and discount in (0,1), a converged soft solve returns values equal (within tolerance) to the log-sum-exp over available actions of the action values, and action values equal to expected reward plus discounted value of the successor; unavailable actions get minus infinity and states without any action have value zero. This holds for rewards of any sign and magnitude without overflow or clipping.",
  ["inputs"],"all transition arrays, features, reward weights (large magnitudes included) and discounts",
  "Soft value iteration is not called by any test.",
  ["maMDP/algorithms/dynamic_programming.py"],[("state_value_iterator (soft branch)","maMDP/algorithms/dynamic_programming.py")],[],["solve_value_iteration(soft=True)"])

p("C10","Policies are proper distributions that follow the action-selection rule",
  "For every table of action values, the greedy rule gives equal probability to exactly the actions tied for the highest value and none to the rest, and the softmax rule gives probability proportional to exp(value/temperature), for any magnitude of values and any positive temperature; each row sums to one, actions that are unavailable or not estimated get probability zero, and a state with no estimated action is reported as having no action instead of a guess. A concrete policy only ever picks actions of positive probability, with matching frequencies, and is reproducible from a seed. Choosing never alters the action values; malformed tables and non-positive temperatures are rejected.",
  ["inputs"],"all finite action-value tables with arbitrary minus-infinity / NaN entries, ties, magnitudes, temperatures and seeds",
  "Tests use three fixed tables without missing or unavailable actions and only check coarse orderings.",
  ["maMDP/algorithms/action_selection.py"],[("MaxActionSelector","maMDP/algorithms/action_selection.py"),("SoftmaxActionSelector / softmax","maMDP/algorithms/action_selection.py"),("ActionSelector.get_pi / get_pi_p","maMDP/algorithms/action_selection.py")],
  [],["get_pi","get_pi_p","softmax","random_max"])

p("C11","Probabilistic stepping propagates the exact state distribution",
  "Stepping an agent probabilistically from a distribution over states returns exactly the distribution obtained by applying its policy and the transition probabilities once: non-negative, summing to one whenever every occupied state has an available action, zero on unreachable and walled states, invariant to rescaling the input and linear in it. Without an explicit distribution it starts from the agent's current state. It never moves the agent, consumes anything or alters its input.",
  ["inputs","histories"],"all worlds (deterministic and stochastic), policies, start distributions and numbers of chained steps",
  "Probabilistic stepping is not tested at all.",
  ["maMDP/agents.py","maMDP/environments.py"],[("AttachedAgent.step_proba","maMDP/agents.py"),("Environment.step_proba","maMDP/environments.py")],[],["Environment.step_proba"])

p("C12","Turns are taken in order, with the stated number of moves, until a catch",
  "Moving one agent by several steps makes exactly the requested number of moves (by default, the agent's own moves per turn) and returns the states entered; moving several agents interactively cycles through them in the given order (an agent named twice moves twice), each making its moves for that turn, for every turn. With stopping enabled, the run ends at once after the first move on which the moving agent lands on an agent it consumes, and no agent moves further; with stopping disabled all moves are made. No agent outside the given ones moves.",
  ["histories","inputs","configurations"],"all environments with 1-4 agents, predator/prey relations, agent orders, moves per turn, turn counts and refitting on/off",
  "No test moves an agent, and no test covers several agents interacting.",
  ["maMDP/environments.py"],[("Environment.step_multi","maMDP/environments.py"),("Environment.step_multi_interactive","maMDP/environments.py"),("_check_agents_caught","maMDP/environments.py")],
  [],["Environment.step_multi","Environment.step_multi_interactive"])

p("C13","Planning moves are laid out over turns from the current move onwards",
  "When refitting before each move, a planner is told, for each agent and turn, how many moves to simulate: the acting agent's planning moves fill its remaining moves of the current turn and then following turns of full length, other agents' fill from the start of their turn, no turn exceeds its number of moves and the total is the requested number or as many as fit. There is one entry per remaining turn and per agent (acting agent first, others in environment order), on every move of a multi-move run. A current move beyond the turn and non-positive or wrongly sized planning moves are rejected.",
  ["inputs","histories"],"all move indices, moves per turn, turns, planning depths, numbers of agents",
  "No test calls the layout function or a refitting run.",
  ["maMDP/environments.py"],[("get_n_moves_plan","maMDP/environments.py"),("Environment.step_multi (refit)","maMDP/environments.py")],[],["get_n_moves_plan","Algorithm.fit n_moves argument"])

p("C14","Tree search simulates only legal play and backs up its true returns",
  "Every trajectory simulated by non-interactive tree search starts at the agent's state, follows valid transitions only, never enters a wall and has exactly the agent's own planned number of moves; visit counts equal how often each state was entered, and each state's accumulated value is the sum over its visits of the simulated return, where the return adds up the rewards of the entered states with consumed features no longer paying. The resulting action values are, for exactly the actions available in the current state, accumulated value divided by one plus visits, and unknown (NaN) everywhere else. While choosing within the tree, an unvisited successor is taken if there is one, otherwise one of maximal upper confidence bound, which is always well defined.",
  ["inputs","histories","schedules"],"all worlds, reward weights, consumption lists, iteration counts, planning depths and random seeds",
  "Tests call isolated helpers on one fixed 4-state table; the search itself is never run.",
  ["maMDP/algorithms/mcts.py"],[("mcts_iteration / run_mcts","maMDP/algorithms/mcts.py"),("MCTS_next_node / UCB","maMDP/algorithms/mcts.py"),("get_MCTS_action_values","maMDP/algorithms/mcts.py")],
  [("V, N","accumulated value and visit count per state","maMDP/algorithms/mcts.py")],["MCTS.V","MCTS.N","MCTS.visited_states","Environment.get_agent_q_values"])

p("C15","Interactive search plays opponents faithfully and accounts for catches",
  "In interactive tree search every agent's simulated moves are valid transitions made in turn order and in the planned numbers; an opponent modelled as solving the world with the greedy rule always takes an action that is optimal for its own reward given the simulated features and agents' current simulated positions. A simulation ends as soon as the searching agent shares a state with an agent that consumes it, adding the catch cost once; an opponent it consumes adds its value once, on top of what entering the state pays, and neither moves nor eats afterwards. Simulated returns equal the entered states' rewards plus these amounts.",
  ["inputs","histories","schedules"],"all worlds, agent sets, consumption relations, opponent models, move plans and random seeds",
  "Tests only check one overlap situation and the reformatting of agent descriptions.",
  ["maMDP/algorithms/mcts.py"],[("mcts_iteration","maMDP/algorithms/mcts.py"),("check_agent_overlap","maMDP/algorithms/mcts.py"),("get_opponent_next_state","maMDP/algorithms/mcts.py"),("extract_all_agent_info","maMDP/algorithms/mcts.py")],
  [("agents_active","which simulated agents are still in play","maMDP/algorithms/mcts.py")],["MCTS.visited_states","MCTS.other_agent_visited_states","MCTS.V"])

p("C16","Caching opponents' action values never changes a search result",
  "With the same random seed, interactive tree search returns identical simulated trajectories, visit counts and values whether caching of opponents' action values is on or off, including when the cache is kept over several searches while the world changes (agents moved, features consumed, walls, reward weights or the settings opponents are solved with changed, the searching agent used in another environment). Every search that works without caching also works with it.",
  ["inputs","histories","configurations"],"all worlds, agents (any number of consumed features, zero or self-referring rewards), opponent models, sequences of searches and moves between them",
  "No test runs a search, with or without caching.",
  ["maMDP/algorithms/mcts.py"],[("cached_q_values keys in mcts_iteration","maMDP/algorithms/mcts.py"),("reset_cache","maMDP/algorithms/mcts.py")],
  [("cache","opponent action values kept between simulations and fits","maMDP/algorithms/mcts.py")],["MCTS(caching=...)"])

p("C17","Planning has no side effects on the world",
  "Fitting any agent with any planner leaves the world, all agents' positions, histories, counts and reward weights, and the other agents' plans exactly as they were; repeating a deterministic fit gives the same values, and values an earlier fit handed out keep their contents. The arrays the caller passed in when building the world and agents are never modified by planning or acting in the environment. A planner plug-in returning values of wrong type or shape is rejected and the previous plan is kept.",
  ["histories","inputs"],"all planners, environments and interleavings of fits with steps",
  "No test fits an agent.",
  ["maMDP/algorithms/base.py","maMDP/algorithms/mcts.py","maMDP/algorithms/dynamic_programming.py","maMDP/agents.py"],[("Algorithm.fit validates before accepting","maMDP/algorithms/base.py"),("simulations work on copies","maMDP/algorithms/mcts.py")],[],["Environment.fit"])

p("C18","Environments are validated and lay out features consistently",
  "Building an environment appends one indicator feature per agent after the world's own features, in the order given, marking each agent's start; reusing a world for a new environment replaces the earlier agents' indicators rather than accumulating them, and removing agents' indicators (whether or not there are any) leaves exactly the world's own features. A specification with a wrong reward length or shape, non-integer or out-of-range start, or out-of-range consumed feature, or with two agents of the same name, is rejected, and afterwards the world can still be used for a valid environment exactly as if the rejected attempt had not happened.",
  ["inputs","histories"],"all sequences of valid and invalid environment specifications over one world",
  "No test builds an environment.",
  ["maMDP/environments.py","maMDP/agents.py","maMDP/mdp.py"],[("Environment._set_mdp_and_agents","maMDP/environments.py"),("MDP.add_agent_feature / remove_agent_features","maMDP/mdp.py")],
  [("n_agents","number of agent indicator rows","maMDP/mdp.py")],["Environment()","MDP.features"])

p("C19","Hex environments survive saving and loading",
  "Converting any hexagonal environment with 0/1 features to its dictionary or JSON form (string or file) and back reproduces grid size, features in order, walls, self-transitions and every agent in order with its name, position, moves per turn, reward weights (fractions included), consumed features, planner and action rule with settings; planning in the copy gives the same action values. The index and coordinate forms describe the same states, and a mismatched number of feature names or a repeated name is rejected.",
  ["inputs","histories"],"all hexagonal environments reachable by building and acting, and all feature names",
  "Saving and loading are untested.",
  ["maMDP/env_io.py"],[("hex_env_to_dict / hex_env_to_json","maMDP/env_io.py"),("hex_environment_from_dict / _from_json","maMDP/env_io.py")],[],["hex_env_to_dict","hex_environment_from_json"])

p("C20","Plots draw every state's contents at that state's place",
  "For every grid world, the drawn features, walls, agents, trajectories, step numbers and state values of a state all appear at the same place, that state's cell: column and row by its coordinates on square grids, and the hexagon whose neighbours are its adjacent states on hex grids. Every step of a trajectory is drawn as an arrow ending at the state it leads to. Exactly the states holding a feature or wall are coloured, agents' indicators are not drawn as features, and plotting changes nothing in the environment.",
  ["inputs"],"all grid shapes (non-square in particular), feature and wall layouts, agents, trajectories and value vectors",
  "Plotting is untested.",
  ["maMDP/plotting.py","maMDP/mdp.py","maMDP/environments.py"],[("plot_grids, plot_grid_values, draw_hexagons, plot_trajectory","maMDP/plotting.py"),("state_to_position","maMDP/mdp.py")],[],["matplotlib artists on the returned axes"])

p("C21","Trajectories and actions translate into each other faithfully",
  "For every world and every trajectory generated by valid actions, the recovered action of each step leads from its state to the next with the highest probability among actions; in deterministic worlds replaying the recovered actions reproduces the trajectory, and the list of all possible actions between two states is exactly those with positive probability. Pairs that are not adjacent are rejected.",
  ["inputs"],"all worlds (deterministic and stochastic), walls, trajectories of any length",
  "Not tested; only the grid-coordinate to action lookup is, around one cell.",
  ["maMDP/mdp.py"],[("_trajectory_to_state_action / _state_pair_to_action","maMDP/mdp.py")],[],["MDP._trajectory_to_state_action","MDP._state_pair_to_action"])

p("C22","Policy learning from observation follows its learning rule exactly",
  "Fitting the policy learner to any number of trajectories of any length (one world or one per trajectory, empty ones skipped) yields exactly the delta-rule estimate: each observed action moves the estimate towards that action's target (one-hot, or the angular kernel) by learning rate times n^-decay for the n-th observation of the fit. Estimates continue from the previous fit until reset, and a reset learner behaves exactly like a new one, any number of times, without ever modifying the initial values the caller supplied or estimates returned earlier; a copy of a learner is independent of it. Trajectories with moves between states that are not adjacent, or not one per world, are rejected.",
  ["inputs","histories"],"all trajectories, worlds, learning rates, decays, kernels, initial estimates and fit/reset histories",
  "The learner has no tests.",
  ["maMDP/algorithms/policy_learning.py"],[("TDGeneralPolicyLearner._fit_TD_policy / reset","maMDP/algorithms/policy_learning.py")],[("Q","current estimate","maMDP/algorithms/policy_learning.py")],["TDGeneralPolicyLearner.get_q_values"])

p("C23","Reward inference uses all evidence fairly and ignores what it should",
  "Feature-matching inference returns exactly the summed counts of the features in the states entered by the trajectories. Maximum-entropy inference stops at the first step whose mean absolute error is below its tolerance, warns exactly if it stopped short of that, and depends only on the collection of trajectories, not on their order or on repeating the whole collection, its n-th step moving the weights by learning rate times n^-decay times the difference between the observed features per visited state (averaged over trajectories) and the features expected under its current policy over the iteration limit's number of steps; hypothesis-testing inference moves each feature's weight towards the value of each observed action (the likeliest one leading there) under that hypothesis, z-scored over the available actions, by a decaying rate multiplied (disconfirming) or divided (confirming) by its asymmetry, or by the plain rate when decay is off. Ignored features get zero weight and do not influence the others, weights stay finite, a reset learner behaves like a new one, and neither the world, the initial weights supplied nor weights returned by earlier fits are changed; a list of worlds that does not match the trajectories is rejected.",
  ["inputs","histories"],"all worlds, trajectory collections, ignored features, initial weights and fit/reset histories",
  "The inference classes have no tests.",
  ["maMDP/algorithms/irl.py"],[("MaxCausalEntIRL._solve_maxcausalent","maMDP/algorithms/irl.py"),("MFFeatureMatching.fit","maMDP/algorithms/irl.py"),("HyptestIRL._solve_hyptest","maMDP/algorithms/irl.py")],[("theta","inferred reward weights","maMDP/algorithms/irl.py")],["fit()","theta"])

p("C24","Line-of-sight reward inference counts exactly the features ahead",
  "For every world, state and action, the line-of-sight count is the sum of the features of the current state and of every state met by repeating that action until it no longer leads anywhere new, and it always terminates. Inference from trajectories adds up the (optionally normalised) counts over all observed moves and accumulates over trajectories and fits until reset (weights returned earlier stay as they were); the comparing variant subtracts what would have been seen along all other moves (staying in place is not compared).",
  ["inputs","histories"],"all deterministic worlds with and without walls and self-transitions, states, actions, trajectories",
  "Not tested.",
  ["maMDP/algorithms/irl.py"],[("get_eyeline_features, get_trajectory_eyeline_features","maMDP/algorithms/irl.py"),("SimpleActionIRL","maMDP/algorithms/irl.py")],[],["get_eyeline_features","SimpleActionIRL.fit"])

p("C25","Successor representations are exact discounted visit expectations",
  "For every deterministic MDP and discount in (0,1), the state-action successor representation equals the expected discounted number of future visits to each state-action pair when actions are chosen uniformly at random (play ending at an unavailable action), each pair counting its own visit. Action values derived from it equal the expected discounted reward of the states so visited, with minus infinity for unavailable actions.",
  ["inputs"],"all deterministic transition arrays, walls, features, reward weights and discounts",
  "Not tested.",
  ["maMDP/algorithms/successor_representation.py"],[("get_sa_sr / get_sr_q_values","maMDP/algorithms/successor_representation.py")],[],["get_sa_sr","get_sr_q_values"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
