From 9289ec3805cf0fd524b2d1e5c1c95665d1386bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 01/58] fix: allow custom MDPs to be constructed (wall length
 is the number of states)

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 83ef70f..e5ff88d 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -122,7 +122,7 @@ class MDP():
         # Check shape etc
         if not walls.ndim == 1:
             raise AttributeError("Array specifying walls must be 1 dimensional")
-        if not walls.shape == np.product(self.shape):
+        if not walls.shape[0] == self.n_states:
             raise AttributeError("Walls array must have the same number of entries as the number of states. Expected {0}, "
                                 "got {1}".format(self.sas.shape[0], walls.shape))
         if not np.all(np.isin(walls, [0, 1])):
-- 
2.43.0


From fd7f34bcaca62a3dacbc60a506ff0bd52ab6177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 02/58] fix: sample the next state of stochastic MDPs

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index e5ff88d..15e92b9 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -219,7 +219,7 @@ class MDP():
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-            next_state = self.rng.random.choice(np.arange(len(possible_states), dtype=np.int), p=possible_states)
+            next_state = self.rng.choice(len(possible_states), p=possible_states)
 
         return next_state
 
-- 
2.43.0


From b719f67181c01c7b1cee1a8b69e00472bf67672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 03/58] fix: keep the adjacency matrix in step with walls

---
 maMDP/mdp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 15e92b9..e73d32b 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -128,15 +128,18 @@ class MDP():
         if not np.all(np.isin(walls, [0, 1])):
             raise ValueError("Wall array values must be either 0 (no wall) or 1 (wall)")
 
-        # Reset SAS
-        self.sas = self.__original_sas.copy()
+        # Start from the original SAS
+        sas = self.__original_sas.copy()
 
         # Add array
         self.__walls = walls
 
         # Adjust SAS
-        self.sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
-        self.sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
+        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+
+        # Setting this also updates the adjacency matrix
+        self.sas = sas
 
     def _get_walls(self, walls):
         return walls
-- 
2.43.0


From b21d1b7fd56d953e67a0bf658b695b51bb4d570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 04/58] fix: do not overwrite the caller's wall array when
 resetting walls

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index e73d32b..7c77115 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -421,7 +421,7 @@ class GridMDP(MDP, metaclass=ABCMeta):
 
     def reset_walls(self):
 
-        self.walls *= 0
+        self.walls = np.zeros_like(self.walls)
 
 
     def plot_trajectory(self, trajectory:List[int], ax:plt.axes, colour:str='black', 
-- 
2.43.0


From 966d3fbfff32f8d1dfeb1e7ca79a52fcd3e181f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 05/58] fix: refuse actions without any successor instead of
 moving to state 0

---
 maMDP/algorithms/base.py | 3 ++-
 maMDP/mdp.py             | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/base.py b/maMDP/algorithms/base.py
index 042879a..11d2754 100644
--- a/maMDP/algorithms/base.py
+++ b/maMDP/algorithms/base.py
@@ -96,12 +96,13 @@ class Algorithm(metaclass=ABCMeta):
 
 class Null(Algorithm):
     """
-    Implements a null planning model which estimates all state values and Q values to be 1.
+    Implements a null planning model which estimates all state values and Q values of available actions to be 1.
     """
 
     def _fit(self, mdp:MDP, reward_function:np.ndarray, position, n_moves):
 
         state_vawlues = np.ones(mdp.n_states)
         q_values = np.ones((mdp.n_states, mdp.n_actions))
+        q_values[mdp.sas.sum(axis=-1) == 0] = -np.inf  # Actions that can't be taken
 
         return state_vawlues, q_values
\ No newline at end of file
diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 7c77115..88a09bf 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -219,6 +219,9 @@ class MDP():
         # Get possible transitions given the best action
         possible_states = self.sas[current_state, action, :]
 
+        if not np.any(possible_states > 0):
+            raise ValueError("Action {0} is not available in state {1}".format(action, current_state))
+
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-- 
2.43.0


From 20a75b2bc755d9427542b8043bc389d848d7e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 06/58] fix: reject out-of-range agent positions with a
 ValueError

---
 maMDP/agents.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index cb2acea..e169882 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -137,9 +137,9 @@ class AttachedAgent():
     @position.setter
     def position(self, new_position:int):
 
-        if new_position >= self._parent_mdp.n_states:
-            raise ValueError("Position must be less than the number of states in the parent MDP. " 
-                             "Provided position {0}, MDP has {1} states".format(self._parent_mdp.n_states))
+        if new_position < 0 or new_position >= self._parent_mdp.n_states:
+            raise ValueError("Position must be non-negative and less than the number of states in the parent MDP. " 
+                             "Provided position {0}, MDP has {1} states".format(new_position, self._parent_mdp.n_states))
 
         if self.__starting_position is None:
             self.__starting_position = new_position
-- 
2.43.0


From 4840e1d2f9aa698aa6ff5cc5005dc3a7e4a7a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 07/58] fix: leave the MDP consistent when an agent's start is
 out of range

---
 maMDP/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 88a09bf..a837014 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -152,13 +152,13 @@ class MDP():
             positions (int): List of state indices for each agent.
         """
 
-        self.n_agents += 1
-
         agent_features = np.zeros((self.n_states))
         agent_features[position] = 1
 
         self.features = np.vstack([self.features, agent_features[None, :]])
 
+        self.n_agents += 1
+
     def update_agent_feature(self, agent_idx:int, position:int):
         """
         Updates the feature associated with an agent (i.e. moving the position of the agent)
-- 
2.43.0


From 52afe0f87a086dd642da30111028a91cd9bedcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 08/58] fix: reject negative indices of consumed features

---
 maMDP/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 6b509aa..28e6827 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -141,7 +141,7 @@ class Environment:
                     )
                 )
 
-            if any([i > len(reward_function) - 1 for i in consumes]):
+            if any([i < 0 or i > len(reward_function) - 1 for i in consumes]):
                 raise ValueError(
                     "Agent {0}: Provided a feature to consume that is out of range. Indexes provided = {1}, reward "
                     "function indicates {2} features".format(
-- 
2.43.0


From c6ed8a1343089d03d4cba6a93c77c05e937a1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 09/58] fix: accumulate transition probabilities in step_proba

---
 maMDP/agents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index e169882..7260eb6 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -216,8 +216,8 @@ class AttachedAgent():
 
         for s in current_states:
             for action in range(self.pi_p.shape[1]):
-                next_state = self._parent_mdp.get_next_state(s, action)
-                next_states_p[next_state] = self.pi_p[s, action] * position[s]
+                if self.pi_p[s, action] > 0:
+                    next_states_p += self.pi_p[s, action] * position[s] * self._parent_mdp.sas[s, action, :]
 
         return next_states_p
 
-- 
2.43.0


From dacb4e61ea7424bc08faf4dcd38d5398dd466593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 10/58] fix: reset consumption counts with the agent

---
 maMDP/agents.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 7260eb6..209818a 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -224,6 +224,7 @@ class AttachedAgent():
 
     def reset(self):
         self.position = self.__starting_position
+        self.consumed = np.zeros(len(self.reward_function))
         self.pi = None
         self.pi_p = None
         self.position_history = [self.__starting_position]
-- 
2.43.0


From 581641696e5131311a0a3fa5fe3c10198606c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 11/58] fix: allow step_multi to refit with a number of steps
 other than n_moves

---
 maMDP/environments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 28e6827..a2d516a 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -323,7 +323,7 @@ class Environment:
         # If not provided this will just be the number of steps the agent is expected to make
         if n_moves_plan is None:
             # Get number of moves for each agent and put in a list
-            n_moves_plan = n_agent_steps
+            n_moves_plan = copy(n_agent_steps)
         # Otherwise use the values provided
         else:
             n_moves_plan = copy(
@@ -345,6 +345,10 @@ class Environment:
         # If a list is given, take the first value as the number of steps for the primary agent
         elif isinstance(n_steps, list):
             n_steps_primary_agent = n_steps[0]
+            n_agent_steps[: len(n_steps)] = n_steps
+
+        # The number of steps being made is the length of the agent's turns
+        n_agent_steps[0] = n_steps_primary_agent
 
         # Check that number of planning moves for all agents is > 0
         if not all([i > 0 for i in n_moves_plan]):
-- 
2.43.0


From e42db2cee83786c344ae859d5a729d8a2bd9b51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 12/58] fix: let MCTS plan n_steps ahead if no moves are
 specified

---
 maMDP/algorithms/mcts.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index a7209eb..ddb2233 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -930,6 +930,29 @@ class MCTS(Algorithm):
 
         return agent_info, opponent_info
 
+    def _get_default_n_moves(self, agent_n_moves: List[int]) -> List[List[int]]:
+        """Distributes the planned number of steps across agents' turns.
+
+        Args:
+            agent_n_moves (List[int]): Number of moves per turn made by each agent, with the primary agent first.
+
+        Returns:
+            List[List[int]]: Number of moves made by each agent on each turn.
+        """
+
+        if not sum(agent_n_moves) > 0:
+            raise ValueError("Agents must make at least one move per turn")
+
+        n_moves = [[] for _ in agent_n_moves]
+        remaining = self.n_steps
+
+        while remaining > 0:
+            for n, moves in enumerate(agent_n_moves):
+                n_moves[n].append(min(moves, remaining))
+                remaining -= n_moves[n][-1]
+
+        return n_moves
+
     def _fit(self, mdp:MDP, reward_function:np.ndarray, position:int, n_moves:Tuple[Tuple[int]]=None):
 
         # This requires an environment as it needs info about other agents
@@ -952,6 +975,12 @@ class MCTS(Algorithm):
             reward_function, self.interactive, mdp
         )
 
+        # If moves aren't specified, plan n_steps ahead based on the number of moves each agent makes per turn
+        if n_moves is None:
+            n_moves = self._get_default_n_moves(
+                [i[1] for i in {**agent_info, **opponent_info}.values()]
+            )
+
         # Run MCTS
         (
             self.V,
-- 
2.43.0


From 8d0eae77a0e11000e95186676d4ee64cadca92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:24 +0000
Subject: [PATCH 13/58] fix: only consider available actions in value iteration

---
 maMDP/algorithms/dynamic_programming.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index adda596..4875c3d 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -113,15 +113,20 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
         # Values of each action taken from state s
         action_values = get_state_action_values(s, n_actions, sas, reward, discount, values)
 
+        # Ignore actions that the agent can't take
+        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]
+
         # Update action values
-        if not soft:
+        if len(valid_action_values) == 0:
+            # Nothing can be gained from a state that can't be left
+            values[s] = 0
+        elif not soft:
             # Max
-            values[s] = action_values.max()
+            values[s] = valid_action_values.max()
         else:
-            # Softmax (e.g. Bloem & Bambos, 2014)
-            valid_actions = np.argwhere(sas[s, ...])[:, 0]  # Ignore actions that the agent can't take
-            # action_values
-            values[s] = np.log(np.sum(np.exp(action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            # Softmax (e.g. Bloem & Bambos, 2014), subtracting the max value to avoid overflow
+            max_value = valid_action_values.max()
+            values[s] = max_value + np.log(np.sum(np.exp(valid_action_values - max_value)))
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From 88379f469525276de884e8a444739e1320cc0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:26 +0000
Subject: [PATCH 14/58] fix: call value iteration with its current arguments in
 solve_all_value_iteration

---
 maMDP/algorithms/mcts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index ddb2233..b6969db 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -795,6 +795,8 @@ def solve_all_value_iteration(
         (sas.shape[0], sas.shape[0], sas.shape[1])
     )  # Prey idx X opponent_states X actions
 
+    features = features.copy()  # avoid modifying the original that was provided
+
     for prey_state in range(features.shape[1]):
 
         # Set prey feature according to the current prey location
@@ -803,8 +805,6 @@ def solve_all_value_iteration(
 
         # Do value iteration
         _, all_q_values[prey_state, ...] = solve_value_iteration(
-            sas.shape[0],
-            sas.shape[1],
             predator_reward_function,
             features,
             max_iter,
-- 
2.43.0


From e50ccb3c5e9ef6534e9303903b78a2b4532deef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:44 +0000
Subject: [PATCH 15/58] fix: accept action value tables of integers

---
 maMDP/algorithms/action_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/action_selection.py b/maMDP/algorithms/action_selection.py
index 0080e97..3bd5ade 100644
--- a/maMDP/algorithms/action_selection.py
+++ b/maMDP/algorithms/action_selection.py
@@ -64,7 +64,7 @@ class ActionSelector(metaclass=ABCMeta):
 
         nan_states = np.isnan(np.nanmean(q_values, axis=1))
 
-        q_values = q_values.copy()
+        q_values = q_values.astype(float)  # Copy, as float so that it can represent -inf
         q_values[np.isnan(q_values)] = -np.inf
 
         # Get policy
@@ -100,7 +100,7 @@ class ActionSelector(metaclass=ABCMeta):
         
         nan_states = np.isnan(np.nanmean(q_values, axis=1))
 
-        q_values = q_values.copy()
+        q_values = q_values.astype(float)  # Copy, as float so that it can represent -inf
         q_values[np.isnan(q_values)] = -np.inf
 
         # Get policy
-- 
2.43.0


From 2dbc828998bf04d4bade7eaf66ed7f6d4e652816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:22 +0000
Subject: [PATCH 16/58] fix: make step_multi_interactive run

---
 maMDP/environments.py | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index a2d516a..6f64878 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -454,49 +454,34 @@ class Environment:
             only be decremented after the 4th move. Defaults to True.
         """
 
-        # Get number of moves for each agent if not provided
-        if n_moves is None:
-            agent_names = [agent_name] + [
-                i for i in self.agent_names if not i == agent_name
-            ]  # Put primary agent first
-            n_moves = [[[self.agents[i].n_moves] * n_turns for i in agent_names]]
-        else:
-            n_moves = copy(n_moves)  # avoid modifying the original that was provided
-            n_turns = len(n_moves[0])  # Get number of turns from n_moves
-
-        # Get the number of planning moves
-        if n_moves_plan is None:
-            n_moves_plan = copy(n_moves)
-
+        # By default, move every agent
         if agent_names is None:
             agent_names = self.agent_names
 
         for agent_name in agent_names:
             self._check_agent_name(agent_name)
 
+        # Get number of moves for each agent if not provided
+        if n_moves is None:
+            n_moves = [[self.agents[i].n_moves] * n_turns for i in agent_names]
+        else:
+            n_turns = len(n_moves[0])  # Get number of turns from n_moves
+
         if progressbar:
             turns = progress_bar(range(n_turns))
         else:
             turns = range(n_turns)
 
-        agent_steps = dict([(a, self.agents[a].n_moves) for a in agent_names])
-
-        # Need to determine the total number of planning steps
-        if adjust_planning_steps is True:
-            adjust_planning_steps = sum((sum(i) for i in n_moves))
-
         for t in turns:
 
             for n, agent_name in enumerate(agent_names):
 
                 positions = self.step_multi(
                     agent_name,
-                    agent_steps[agent_name],
-                    refit=refit,
                     n_steps=n_moves[n][t],
-                    n_turns_plan=n_turns - t,
                     n_moves_plan=n_moves_plan,
-                    adjust_planning_steps=adjust_planning_steps,
+                    n_turns_plan=n_turns - t,
+                    refit=refit,
                     stop_on_caught=stop_on_caught,
                 )
 
@@ -504,13 +489,6 @@ class Environment:
                     warnings.warn("Agent was caught, stopping")
                     return
 
-                # Decrement adjust_planning_steps (this should work...)
-                if isinstance(adjust_planning_steps, int):
-                    adjust_planning_steps -= n_moves[n][t]
-
-                # Update number of planning moves for each agent
-                n_moves_plan[n] = n_moves_plan[n][t + 1 :]
-
     def reset(self):
         """
         Resets the agents and the MDP to their starting states.
-- 
2.43.0


From 025b2610e13fe93865358d695c2c52b379baa0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:14 +0000
Subject: [PATCH 17/58] fix: keep UCB defined for nodes that have not been
 visited

---
 maMDP/algorithms/mcts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index b6969db..6c9f1ab 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -141,7 +141,7 @@ def UCB(
     """
 
     ucb = (V[states] / (1 + N[states])) + C * np.sqrt(
-        (2 * np.log(N[node])) / (1 + N[states])
+        (2 * np.log(max(N[node], 1))) / (1 + N[states])
     )
 
     return ucb
-- 
2.43.0


From 81e9103b62a7599321bb28f2a873fe1f44c2b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:39 +0000
Subject: [PATCH 18/58] fix: key cached opponent Q values on the features they
 depend on

---
 maMDP/algorithms/mcts.py | 41 +++++-----------------------------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 6c9f1ab..e931031 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -8,7 +8,6 @@ from ..mdp import MDP
 from .action_selection import softmax
 import warnings
 import time
-from operator import itemgetter
 
 
 @njit
@@ -336,9 +335,6 @@ def mcts_iteration(
     # Keep track of which other agents have been eaten
     agents_active = np.ones(len(current_node), dtype=np.bool_)
 
-    # Track which features have been consumed
-    consumed_features = [() for _ in range(features.shape[0])]
-
     # Which features each agent cares about (i.e. where reward function has zero weight)
     agent_preferences = []
     for agent in range(n_agents):
@@ -401,18 +397,10 @@ def mcts_iteration(
                 if agents_active[current_actor]:
                     if verbose:
                         print('Stepping other agent, total steps = {0}. Current node = {1}'.format(total_steps, current_node[current_actor]))
-                    other_agent_nodes = current_node[
-                        np.arange(len(current_node)) != current_actor
-                    ]
-                    feature_consumption = tuple(
-                        itemgetter(*agent_preferences[current_actor])(consumed_features)
-                    )
+                    # Q values depend on the current state of the features the agent cares about
+                    cache_key = features[agent_preferences[current_actor]].tobytes()
 
-                    if (
-                        caching
-                        and (tuple(other_agent_nodes), feature_consumption)
-                        in cached_q_values[current_actor]
-                    ):
+                    if caching and cache_key in cached_q_values[current_actor]:
                         cache_used += 1
                         current_node[current_actor], q_values = get_opponent_next_state(
                             opponent_policy_method,
@@ -428,9 +416,7 @@ def mcts_iteration(
                             max_iter=VI_max_iter,
                             discount=VI_discount,
                             tol=VI_tol,
-                            q_values=cached_q_values[current_actor][
-                                (tuple(other_agent_nodes), feature_consumption)
-                            ],
+                            q_values=cached_q_values[current_actor][cache_key],
                         )
                     else:
                         current_node[current_actor], q_values = get_opponent_next_state(
@@ -450,9 +436,7 @@ def mcts_iteration(
                             q_values=None,
                         )
                         if caching:
-                            cached_q_values[current_actor][
-                                (tuple(other_agent_nodes), feature_consumption)
-                            ] = q_values
+                            cached_q_values[current_actor][cache_key] = q_values
 
                     if return_other_agent_states:
                         other_agent_visited_states[current_actor - 1].append(
@@ -462,21 +446,6 @@ def mcts_iteration(
             # Consume features in this state
             if agents_active[current_actor]:
 
-                # Keep a record of what's been consumed
-                if caching:
-                    for f in np.where(consumes_features[current_actor, :])[0]:
-                        # Check there is something to consume
-                        if (
-                            features[
-                                consumes_features[current_actor, :],
-                                current_node[current_actor],
-                            ]
-                            != 0
-                        ):
-                            consumed_features[f] = consumed_features[f] + (
-                                current_node[current_actor],
-                            )
-
                 # Remove consumed feature from the feature array
                 features[
                     consumes_features[current_actor, :], current_node[current_actor]
-- 
2.43.0


From a965504080cca992e25991fb78e192e649ef0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 19/58] fix: update simulated agents' features after they move

---
 maMDP/algorithms/mcts.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index e931031..9d2bb06 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -351,10 +351,6 @@ def mcts_iteration(
         # If this agent is supposed to be moving
         if n_moves[current_actor][current_turns[current_actor]] > 0:
 
-            # Set corresponding agent feature
-            features[agent_feature_idx[current_actor], :] = 0
-            features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
-
             # Check whether any agents should be eaten
             if interactive:
                 added_reward, agents_active, caught = check_agent_overlap(
@@ -443,9 +439,13 @@ def mcts_iteration(
                             current_node[current_actor]
                         )
 
-            # Consume features in this state
             if agents_active[current_actor]:
 
+                # Set corresponding agent feature
+                features[agent_feature_idx[current_actor], :] = 0
+                features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
+
+                # Consume features in this state
                 # Remove consumed feature from the feature array
                 features[
                     consumes_features[current_actor, :], current_node[current_actor]
-- 
2.43.0


From a82ceb49a504e8d03cde20c73cc7517edfe48eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 20/58] fix: account for catches on the final simulated move

---
 maMDP/algorithms/mcts.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 9d2bb06..74c7bbb 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -473,7 +473,12 @@ def mcts_iteration(
                 else:
                     current_actor = 0
 
-
+    # Check whether any agents should be eaten following the final move
+    if interactive:
+        added_reward, agents_active, caught = check_agent_overlap(
+            consumes_agents, current_node, caught_cost, agents_active, agent_values
+        )
+        accumulated_reward += added_reward
 
     return (
         accumulated_reward,
-- 
2.43.0


From 3d731e4e8e69631fe57244a6572f6979853a4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:01 +0000
Subject: [PATCH 21/58] fix: agents that have been eaten neither eat nor get
 eaten again

---
 maMDP/algorithms/mcts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 74c7bbb..47cbd4d 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -222,6 +222,10 @@ def check_agent_overlap(
         agent1 = consuming_agents[n]
         agent2 = consumed_agents[n]
 
+        # Agents that have already been eaten neither eat nor get eaten
+        if not (agents_active[agent1] and agents_active[agent2]):
+            continue
+
         # If agents are in the same state
         if current_node[agent1] == current_node[agent2]:
             # set the agent inactive
-- 
2.43.0


From ec6c0e1eed7d48002e1610e86705d05592a6eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 22/58] fix: keep fractional reward weights when saving
 environments

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 729c537..f701418 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -58,7 +58,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
         agent_dict[agent_name]['n_moves'] = agent.n_moves
 
-        agent_dict[agent_name]['reward_function'] = [int(i) for i in list(agent.reward_function)]
+        agent_dict[agent_name]['reward_function'] = [float(i) for i in agent.reward_function]
         agent_dict[agent_name]['consumes'] = agent.consumes
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
-- 
2.43.0


From 26c9257f57237df7a9f584a195f638a1b317084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 23/58] fix: use the MDP's feature names when saving without
 feature names

---
 maMDP/env_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index f701418..8a3d814 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -16,13 +16,16 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
     Args:
         env (Environment): The environment.
-        feature_names (List): Names of features. Defaults to None.
+        feature_names (List): Names of features. Defaults to None, which uses the names of the MDP's features.
         format (str, optional): How to represent agent positions, can be 'coords' or 'index'. Defaults to 'index'.
 
     Returns:
         Dict: Returns a dictionary specifying shape of the grid, agent positions and properties, MDP properties
     """
 
+    if feature_names is None:
+        feature_names = env.mdp.feature_names[:env.mdp.n_features - len(env.agents)]
+
     if not (env.mdp.n_features - len(env.agents)) == len(feature_names):
         raise AttributeError('Number of feature names should equal number of features, excluding agents')
 
-- 
2.43.0


From 8daad7c8af2e43ce6af2d42f0f862e37e4ca9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 24/58] fix: load all saved features unless feature names are
 given

---
 maMDP/env_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 8a3d814..a799562 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -97,12 +97,15 @@ def hex_env_to_json(env:Environment, feature_names:List, return_string=False, fn
         return json_string
 
 
-def hex_environment_from_dict(env_dict, feature_names=[]):
+def hex_environment_from_dict(env_dict, feature_names=None):
 
     if not env_dict['type'] == 'hex':
         raise NotImplementedError()
 
     else:
+        if feature_names is None:
+            feature_names = list(env_dict['features'].keys())
+
         n_features = len(env_dict['features'])
         features = np.zeros((n_features, np.product(env_dict['size'])))
         for n, f in enumerate(feature_names):
-- 
2.43.0


From cb68cf9b92b1e206961d6d2d653ebda2f55119ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 25/58] fix: save coordinates of single features and walls as a
 list of pairs

---
 maMDP/env_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index a799562..4bbf3ee 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -39,12 +39,12 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         if format == 'index':
             env_dict['features'][feature_names[f]] = np.where(env.mdp.features[f, :])[0].astype(int).tolist()
         elif format == 'coords':
-            env_dict['features'][feature_names[f]] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.features[f, :]))).T.squeeze().astype(int).tolist()
+            env_dict['features'][feature_names[f]] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.features[f, :]))).T.reshape(-1, 2).astype(int).tolist()
 
     if format == 'index':
         env_dict['walls'] = np.where(env.mdp.walls)[0].astype(int).tolist()
     elif format == 'coords':
-        env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls))).T.squeeze().astype(int).tolist()
+        env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls))).T.reshape(-1, 2).astype(int).tolist()
 
     env_dict['type'] = 'hex'
     env_dict['self_transitions'] = env.mdp.self_transitions
-- 
2.43.0


From b459d5af6107b12b17bdbd4c2082e971a6d956ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:15 +0000
Subject: [PATCH 26/58] fix: draw the features of worlds without agents

---
 maMDP/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index a837014..68f50be 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -529,7 +529,7 @@ class SquareGridMDP(GridMDP):
         """
 
         # Plot features
-        ax = plot_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, *args, **kwargs)
+        ax = plot_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, *args, **kwargs)
 
         # Plot walls
         ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
@@ -639,7 +639,7 @@ class HexGridMDP(GridMDP):
             plt.axes: Axes
         """
 
-        ax, self.coords = plot_hex_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
+        ax, self.coords = plot_hex_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
 
         # Plot walls
         ax, _ = plot_hex_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
-- 
2.43.0


From 25c0b1a6373652f010a869a719e7a6de75048579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:32 +0000
Subject: [PATCH 27/58] fix: draw state values of square grids in the cells of
 their states

---
 maMDP/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index cdf339c..c34f742 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -96,11 +96,11 @@ def plot_grid_values(
         _, ax = plt.subplots(*args, **kwargs)
 
     # Plot each grid
-    ax.imshow(grid, cmap=cmap)
+    ax.imshow(grid.T, cmap=cmap)
 
     ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
     ax.set_xticks(np.arange(-0.5, grid.shape[0], 1))
-    ax.set_yticks(np.arange(-0.5, grid.shape[0], 1))
+    ax.set_yticks(np.arange(-0.5, grid.shape[1], 1))
     for tic in ax.xaxis.get_major_ticks():
         tic.tick1line.set_visible(False)
         tic.tick2line.set_visible(False)
-- 
2.43.0


From fd31fd9a3fdfc80927b96443f6b2c937229c4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:17 +0000
Subject: [PATCH 28/58] fix: let the policy learner keep, and return to, its
 initial estimate

---
 maMDP/algorithms/policy_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index ff77f9b..140d768 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -64,15 +64,15 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         self._adjusted_learning_rate = learning_rate
         self.kernel = kernel
         self.ls = ls
-        self.original_Q = np.array(Q).copy()
+        self.original_Q = None if Q is None else np.array(Q, dtype=float)
         self.n_states = 1
         self.fit_complete = False
 
-        self.Q = Q 
+        self.Q = None if Q is None else self.original_Q.copy()
 
     def reset(self):
         """ Resets the estimate to its initial state """
-        self.Q = self.original_Q
+        self.Q = None if self.original_Q is None else self.original_Q.copy()
         self.reset_learning_rate()
         self.fit_complete = False
 
-- 
2.43.0


From 798d924754f37dfcf4814c21544436a2e827be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:17 +0000
Subject: [PATCH 29/58] fix: use the trajectory's own MDP throughout when
 learning policies

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index 140d768..12a5f93 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -99,7 +99,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
                 action = mdp[n]._trajectory_to_state_action(trajectory)[:, 1].astype(int)
 
                 # Loop through individual actions within each trajectory
-                for n, a in enumerate(action):
+                for a in action:
                     
                     trial_reward = np.zeros(mdp[n].n_actions)
 
-- 
2.43.0


From 38b65f3031257b7b77c7d78ec14c10e95b03c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:17 +0000
Subject: [PATCH 30/58] fix: decay the policy learner's learning rate as
 documented

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index 12a5f93..a53c87d 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -115,7 +115,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
 
                     # Adjust learning rate
                     if self.learning_rate_decay > 0:
-                        self._adjusted_learning_rate = self._adjusted_learning_rate * np.power(self.n_states, -self.learning_rate_decay)
+                        self._adjusted_learning_rate = self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
                         self.Q += self._adjusted_learning_rate * delta
 
                     # No learning rate adjustment
-- 
2.43.0


From 9413ff8bea760fd791d853aca42a33596ff45941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:05 +0000
Subject: [PATCH 31/58] fix: ignore features rather than trajectories in
 feature matching

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 4595cdb..96a2e47 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -287,7 +287,7 @@ class MFFeatureMatching(BaseIRL):
         for n, t in enumerate(trajectories):
             feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Exclude the first state of the trajectory as it's the start state which wasn't chosen
 
-        feature_array[ignore_features, :] = 0
+        feature_array[:, ignore_features] = 0
 
         self.theta = feature_array.sum(axis=0)
 
-- 
2.43.0


From b21da1cbe22e0995775efd8a79e8b8c4cb4a1c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:11 +0000
Subject: [PATCH 32/58] fix: do not ignore every feature by default in
 MaxCausalEntIRL

---
 maMDP/algorithms/irl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 96a2e47..3a62a0f 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -168,6 +168,8 @@ class MaxCausalEntIRL(BaseIRL):
             
     def _solve_maxcausalent(self, mdp, trajectories, ignore_features=(), show_progress=True):
         
+        ignore_features = list(ignore_features)  # An empty tuple would index every feature
+
         # Get observed state visitation counts
         visited_states = np.zeros(mdp.n_states)
         
-- 
2.43.0


From ef0e31602d1a8bfa04e82822d885f65091e53593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:37 +0000
Subject: [PATCH 33/58] fix: weight all trajectories equally in MaxCausalEntIRL

---
 maMDP/algorithms/irl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 3a62a0f..8a8e431 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -176,9 +176,7 @@ class MaxCausalEntIRL(BaseIRL):
         # Get empirical state visitation counts
         for t in trajectories:
             for s in t:
-                visited_states[s] += 1
-            # Normalise
-            visited_states /= len(t)
+                visited_states[s] += 1 / len(t)  # Normalise by the length of this trajectory
         # Normalise
         visited_states /= len(trajectories)
 
-- 
2.43.0


From c08a1b78d4d93bf294efb8e754b1e443ad20d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:01 +0000
Subject: [PATCH 34/58] fix: let IRL learners keep, and return to, their
 initial reward weights

---
 maMDP/algorithms/irl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 8a8e431..0765a5a 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -121,8 +121,8 @@ class MaxCausalEntIRL(BaseIRL):
         self.original_learning_rate = learning_rate
         self.learning_rate_decay = decay
         self.max_iter_irl = max_iter_irl
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = None if theta is None else self.original_theta.copy()
 
         # This is used for feature count estimation
         if soft:
@@ -231,7 +231,7 @@ class MaxCausalEntIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function and learning rate to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
         self.learning_rate = self.original_learning_rate
 
     def reset_learning_rate(self):
@@ -336,8 +336,8 @@ class HyptestIRL(BaseIRL):
         self.learning_rate = learning_rate
         self.asymmetry = asymmetry
         self.learning_rate_decay = decay
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = None if theta is None else self.original_theta.copy()
         self.normalisation = normalisation
 
     def _single_move(self, start:int, next_state:int, sas:np.ndarray, q_values:Union[np.ndarray, None], 
@@ -485,7 +485,7 @@ class HyptestIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
 
     def fit(self, mdp:Union[MDP, List[MDP]], trajectories:List[List[int]], ignore_features:tuple=(), show_progress:bool=True) -> np.ndarray:
         """
-- 
2.43.0


From e0622c1a5629a762dbe46dbcf35a8a6aafeb34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:24 +0000
Subject: [PATCH 35/58] fix: decay the learning rate of MaxCausalEntIRL as
 documented

---
 maMDP/algorithms/irl.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 0765a5a..bbda5f9 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -214,7 +214,6 @@ class MaxCausalEntIRL(BaseIRL):
             if self.learning_rate_decay == 0:
                 self.theta += self.learning_rate * error
             else:
-                self.learning_rate = (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay)))
                 self.theta += (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay))) * error
 
             # Update progress bar
-- 
2.43.0


From a9ae7ef59726e4243422e01f46b4af4e23ba35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:47 +0000
Subject: [PATCH 36/58] fix: give ignored features zero weight in HyptestIRL

---
 maMDP/algorithms/irl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index bbda5f9..ac88e4a 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -424,6 +424,8 @@ class HyptestIRL(BaseIRL):
             R_ = np.zeros(features[0].shape[0])
         else:
             R_ = self.theta
+        ignore_features = list(ignore_features)
+        R_[ignore_features] = 0
         learning_rate = np.ones(features[0].shape[0]) * self.learning_rate
         Rs = []
         observed_Rs = []
@@ -452,6 +454,7 @@ class HyptestIRL(BaseIRL):
 
                 # Error
                 delta = R - R_
+                delta[ignore_features] = 0
 
                 # Adjust learning rate
                 if self.learning_rate_decay > 0:
-- 
2.43.0


From 4c8c38281b4b489f6e880f8235299b9d1bd01873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 37/58] fix: z-score equal action values as zero rather than
 NaN

---
 maMDP/algorithms/irl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index ac88e4a..31a128f 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -17,7 +17,9 @@ def zscore_nb(x):
     for i in range(x.shape[1]):
         x_i = x[:, i]
         x_i[np.isinf(x_i)] = np.nan
-        xnew[:, i] = (x_i - np.nanmean(x_i)) / np.nanstd(x_i)
+        sd = np.nanstd(x_i)
+        if sd > 0:  # Otherwise all actions are equally good, leave as zero
+            xnew[:, i] = (x_i - np.nanmean(x_i)) / sd
     return xnew
 
 @njit
-- 
2.43.0


From 312ac448f43415632ca7132ca26527000cc086c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:13 +0000
Subject: [PATCH 38/58] fix: stop following an eyeline that leads back to a
 state already seen

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 31a128f..7d4b0b8 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -538,7 +538,7 @@ def get_eyeline_features(mdp, current_state, action):
     while not complete:
         states.append(current_state)
         sa_next_states = mdp.sas[current_state, action, :]
-        if np.max(sa_next_states) > 0:
+        if np.max(sa_next_states) > 0 and np.argmax(sa_next_states) not in states:
             current_state = np.argmax(sa_next_states)
         else:
             complete = True
-- 
2.43.0


From 06d4115933c41dbc3a1712426ebe2052e92622c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:27 +0000
Subject: [PATCH 39/58] fix: index agents' indicator features by the features
 the MDP actually has

---
 maMDP/agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 209818a..bf4f7cf 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -79,7 +79,7 @@ class AttachedAgent():
         self.action_kwargs = action_kwargs
 
         self.agent_idx = index
-        self.agent_feature_idx = index + parent_mdp._MDP__n_non_agent_features  # Index of the corresponding feature for this agent
+        self.agent_feature_idx = index + (parent_mdp.n_features - parent_mdp.n_agents)  # Index of the corresponding feature for this agent
 
         self._parent_mdp = parent_mdp
         self._parent_environment = parent_environment
-- 
2.43.0


From 999aa619b9b1a45639de20067ca9b79c67df16c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:46 +0000
Subject: [PATCH 40/58] fix: list each valid action once in stochastic MDPs

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 68f50be..5bc7676 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -303,7 +303,7 @@ class MDP():
             np.ndarray: Returns an array of action indices.
         """
 
-        return np.where(self.sas[state, ...])[0]
+        return np.where(np.any(self.sas[state, ...] > 0, axis=-1))[0]  # Each action once, however many states it may lead to
 
     def observation(self):
         pass
-- 
2.43.0


From 05bd63c461efc80cc7da13be5483bfed375fd2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:13 +0000
Subject: [PATCH 41/58] fix: plan in worlds whose transitions or features are
 integer arrays

---
 maMDP/algorithms/dynamic_programming.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index 4875c3d..2d96a7f 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -166,7 +166,10 @@ def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_i
     values_ = np.zeros(n_states)
 
     # Get state rewards based on the supplied reward function
-    reward_ = np.dot(reward_function.astype(np.float64), features)
+    reward_ = np.dot(reward_function.astype(np.float64), features.astype(np.float64))
+
+    # Transitions may be given as integers or bools
+    sas_ = sas.astype(np.float64)
 
     # Until converged   
     for _ in range(max_iter):
@@ -174,7 +177,7 @@ def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_i
         # Delta checks for convergence
         delta_ = 0
 
-        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas, soft)
+        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas_, soft)
 
         if delta_ < tol:
             break
-- 
2.43.0


From 90f94c413a854ddf0c7799b1f3663dc2d5d669ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:43 +0000
Subject: [PATCH 42/58] fix: successor representation values for integer
 weights and features

---
 maMDP/algorithms/successor_representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/successor_representation.py b/maMDP/algorithms/successor_representation.py
index 6bae20c..2f2857a 100644
--- a/maMDP/algorithms/successor_representation.py
+++ b/maMDP/algorithms/successor_representation.py
@@ -64,7 +64,7 @@ def get_sr_q_values(
         features.shape[-1] == n_states
     ), "Mismatch between features shape and number of states"
 
-    reward = np.dot(theta, features)
+    reward = np.dot(theta.astype(np.float64), features.astype(np.float64))
     qs = np.dot(
         sr, reward.repeat(n_actions)
     )  # Repeat so we have the same reward for each action in a state
-- 
2.43.0


From bce60465120b7659cb33ffd1274eac45a105d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:56 +0000
Subject: [PATCH 43/58] fix: warn whenever maximum entropy inference stopped
 short of convergence

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 7d4b0b8..736c386 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -227,7 +227,7 @@ class MaxCausalEntIRL(BaseIRL):
                 print("Converged after {0} iterations".format(i))
                 break
 
-        if not np.mean(error) < self.tol:
+        if not mean_abs_error < self.tol:
             warnings.warn('Solver did not converge', Warning)
 
     def reset(self):
-- 
2.43.0


From 90fe502089a59facb1e8f1f8265e97c0754dd956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:51 +0000
Subject: [PATCH 44/58] fix: never reuse cached opponent Q values for other
 transitions, weights or agents

---
 maMDP/algorithms/mcts.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 47cbd4d..fc22c50 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -397,8 +397,11 @@ def mcts_iteration(
                 if agents_active[current_actor]:
                     if verbose:
                         print('Stepping other agent, total steps = {0}. Current node = {1}'.format(total_steps, current_node[current_actor]))
-                    # Q values depend on the current state of the features the agent cares about
-                    cache_key = features[agent_preferences[current_actor]].tobytes()
+                    # Q values depend on the agent's weights and the current state of the features it cares about
+                    cache_key = (
+                        reward_functions[current_actor].tobytes(),
+                        features[agent_preferences[current_actor]].tobytes(),
+                    )
 
                     if caching and cache_key in cached_q_values[current_actor]:
                         cache_used += 1
@@ -689,7 +692,7 @@ def run_mcts(
     N = np.zeros(sas.shape[0])  # Times each node visited
 
     # Cached Q values - used to same time solving MDP for other agents
-    if cached_q_values is None:
+    if cached_q_values is None or len(cached_q_values) != len(current_node):
         cached_q_values = [{} for _ in range(len(current_node))]
 
     # Keep track of visited states
@@ -853,6 +856,7 @@ class MCTS(Algorithm):
         self.caching = caching
         self.reset_cache = reset_cache
         self.cache = None
+        self._cached_sas = None
         self.VI_kwargs = VI_kwargs
         self.sr = None
         self.verbose = verbose
@@ -942,8 +946,10 @@ class MCTS(Algorithm):
         # Reset things
         self.reset()
 
-        if self.reset_cache:
+        # Cached Q values are only valid for the transitions they were calculated with
+        if self.reset_cache or self._cached_sas is not mdp.sas:
             self.cache = None
+        self._cached_sas = mdp.sas
 
         if self.sr is None:
             self.sr = get_sa_sr(mdp.sas, 0.99)
-- 
2.43.0


From ab4472bd98d9a4c75e17fd83d5af3c37e1f3e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:56 +0000
Subject: [PATCH 45/58] fix: weigh each available action once when testing
 hypotheses in stochastic worlds, and take the likeliest action

---
 maMDP/algorithms/irl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 736c386..192d7ea 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -364,6 +364,7 @@ class HyptestIRL(BaseIRL):
             next_action = np.argwhere(sas[start, :, next_state])[0][0]
         except Exception as e:
             raise ValueError('State {0} and state {1} are not adjacent'.format(start, next_state))
+        next_action = np.argmax(sas[start, :, next_state])  # The most likely action, if there are several
 
         # Estimate Q values if not provided
         if q_values is None:
@@ -387,6 +388,7 @@ class HyptestIRL(BaseIRL):
 
         # Get legal actions in this state
         _, actions, _ = get_actions_states(sas, start)
+        actions = np.unique(actions)  # Each action counts once, however many states it may lead to
 
         # Z score the Q value according to each hypothesis within each action
         if self.normalisation == 'z-score':
-- 
2.43.0


From 386a1d6f2bfb1e03b9ca3725e76b870b7629a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:56 +0000
Subject: [PATCH 46/58] fix: draw hexagons when all state values are the same

---
 maMDP/plotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index c34f742..af4d56c 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -8,7 +8,9 @@ from matplotlib.patches import RegularPolygon
 
 def normalise(x):
     """Normalises data to 0-1"""
-    return (x - np.nanmin(x)) / np.nanmax(x - np.nanmin(x))
+    x = x - np.nanmin(x)
+    data_range = np.nanmax(x)
+    return x / data_range if data_range > 0 else x  # All values may be the same
 
 
 # SQUARE GRID PLOTTING FUNCTIONS
-- 
2.43.0


From 0a3c2dc23b78adb5fff6857d627a434d03e29417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:56 +0000
Subject: [PATCH 47/58] fix: save agents whose position, moves or consumed
 features are numpy integers

---
 maMDP/env_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 4bbf3ee..20e71b6 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -55,14 +55,14 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         agent_dict = {agent_name: {}}
         agent_dict[agent_name] = {}
         if format == 'index':
-            agent_dict[agent_name]['position'] = agent.position
+            agent_dict[agent_name]['position'] = int(agent.position)
         elif format == 'coords':
             agent_dict[agent_name]['position']  = [[int(i) for i in list(env.mdp.state_to_idx(agent.position))]]
 
-        agent_dict[agent_name]['n_moves'] = agent.n_moves
+        agent_dict[agent_name]['n_moves'] = int(agent.n_moves)
 
         agent_dict[agent_name]['reward_function'] = [float(i) for i in agent.reward_function]
-        agent_dict[agent_name]['consumes'] = agent.consumes
+        agent_dict[agent_name]['consumes'] = [int(i) for i in agent.consumes]
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
         agent_dict[agent_name]['algorithm_kwargs'] = agent.algorithm_kwargs
-- 
2.43.0


From 27d520ba18b3b0cdad9774ec77544cd8ad4f17e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:28 +0000
Subject: [PATCH 48/58] fix: reject transition arrays containing NaN

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 5bc7676..f28bf40 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -60,7 +60,7 @@ class MDP():
         if  not sas.ndim == 3 or not sas.shape[0] == sas.shape[2]:
             raise TypeError('SAS should be a numpy array of shape (states, actions, states)')
 
-        if np.min(sas) < 0 or np.max(sas) > 1:
+        if not (np.min(sas) >= 0 and np.max(sas) <= 1):  # Also rejects NaN
             raise AttributeError('SAS should contain probabilities between 0 and 1,'
                                  'min value provided = {0}, max value provided = {1}'.format(np.min(sas), np.max(sas)))
 
-- 
2.43.0


From a6a2a4cf730a9124d2a9bdb54e1bf2ef439f9f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:03 +0000
Subject: [PATCH 49/58] fix: simulate only the agent's own planned moves in
 non-interactive tree search

---
 maMDP/algorithms/mcts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index fc22c50..9cf3ea6 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -314,8 +314,8 @@ def mcts_iteration(
         along with cached Q values.
     """
 
-    # Total number of steps is total number of moves in n_moves
-    n_steps = sum([sum(n) for n in n_moves])
+    # Total number of steps is total number of moves in n_moves (only the primary agent moves if not interactive)
+    n_steps = sum([sum(n) for n in (n_moves if interactive else n_moves[:1])])
 
     expand = True  # This determines whether we expand or simulate
     accumulated_reward = 0  # Total reward accumulated across all states
@@ -353,7 +353,7 @@ def mcts_iteration(
     while total_steps < n_steps:
 
         # If this agent is supposed to be moving
-        if n_moves[current_actor][current_turns[current_actor]] > 0:
+        if not interactive or n_moves[current_actor][current_turns[current_actor]] > 0:
 
             # Check whether any agents should be eaten
             if interactive:
-- 
2.43.0


From 2d77a2e4a3f331c67338f62e39cc3b752378c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:03 +0000
Subject: [PATCH 50/58] fix: keep the features when removing agent features
 from a world without agents

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index f28bf40..7f6ea9b 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -178,7 +178,7 @@ class MDP():
     def remove_agent_features(self):
         """ Removes agent features """
 
-        self.features = self.features[:-self.n_agents, :]
+        self.features = self.features[:self.n_features - self.n_agents, :]
         self.n_agents = 0
 
     def consume_features(self, feature_idx:List[int], state_id:int) -> np.ndarray:
-- 
2.43.0


From c4de67587bd20a186dd40e19c4e367be8f4a0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:03 +0000
Subject: [PATCH 51/58] fix: leave reward weights returned by earlier fits
 unchanged when fitting again

---
 maMDP/algorithms/irl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 192d7ea..b1272c4 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -192,6 +192,7 @@ class MaxCausalEntIRL(BaseIRL):
         if self.theta is None:
             self.theta = np.ones(mdp.n_features) * 0
 
+        self.theta = self.theta.copy()  # Estimates returned by earlier fits stay as they were
         self.theta[ignore_features] = 0
 
         # Max ent loop
@@ -427,7 +428,7 @@ class HyptestIRL(BaseIRL):
         if self.theta is None:
             R_ = np.zeros(features[0].shape[0])
         else:
-            R_ = self.theta
+            R_ = self.theta.copy()  # Estimates returned by earlier fits stay as they were
         ignore_features = list(ignore_features)
         R_[ignore_features] = 0
         learning_rate = np.ones(features[0].shape[0]) * self.learning_rate
@@ -599,7 +600,7 @@ class SimpleActionIRL():
 
         for n, m in enumerate(mdp):
             observed_feature_counts = get_trajectory_eyeline_features(m, [trajectories[n]])
-            self.theta += observed_feature_counts
+            self.theta = self.theta + observed_feature_counts
 
         return self.theta
 
@@ -617,7 +618,7 @@ class SimpleActionFeatureDiffIRL():
         for n, m in enumerate(mdp):
             observed_feature_counts = get_trajectory_eyeline_features_diff(m, [trajectories[n]])
 
-            self.theta += observed_feature_counts
+            self.theta = self.theta + observed_feature_counts
         
         return self.theta
 
-- 
2.43.0


From 994b5cc84e5cf7edd47edcd4b02456818f0468c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:03 +0000
Subject: [PATCH 52/58] fix: leave action values returned earlier unchanged
 when the policy learner is fit again

---
 maMDP/algorithms/policy_learning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index a53c87d..b598a71 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -87,6 +87,8 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         # Initialise Q
         if self.Q is None:
             self.Q = np.zeros(mdp[0].n_actions)
+        else:
+            self.Q = self.Q.copy()  # Estimates returned earlier stay as they were
 
         self.n_states = 1  # Used for adjusting learning rate
 
-- 
2.43.0


From 09b9b04c61f8ba71ea70d75bc69ddc0c4ee6cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:03 +0000
Subject: [PATCH 53/58] fix: accept numpy integers and tuples as numbers of
 steps

---
 maMDP/environments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 6f64878..5b86c1f 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -340,10 +340,10 @@ class Environment:
         if n_steps is None:
             n_steps_primary_agent = self.agents[agent_name].n_moves
         # If an int is given, use this as the number of steps for the primary agent
-        elif isinstance(n_steps, int):
+        elif isinstance(n_steps, (int, np.integer)):
             n_steps_primary_agent = n_steps
         # If a list is given, take the first value as the number of steps for the primary agent
-        elif isinstance(n_steps, list):
+        elif isinstance(n_steps, (list, tuple)):
             n_steps_primary_agent = n_steps[0]
             n_agent_steps[: len(n_steps)] = n_steps
 
-- 
2.43.0


From d5bcfabd055d6db61620a6051bece8541b4cff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:03 +0000
Subject: [PATCH 54/58] fix: keep cached action values of opponents apart by
 the settings they were solved with

---
 maMDP/algorithms/mcts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 9cf3ea6..adaeb0d 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -397,10 +397,14 @@ def mcts_iteration(
                 if agents_active[current_actor]:
                     if verbose:
                         print('Stepping other agent, total steps = {0}. Current node = {1}'.format(total_steps, current_node[current_actor]))
-                    # Q values depend on the agent's weights and the current state of the features it cares about
+                    # Q values depend on the agent's weights, the current state of the features it cares about and how
+                    # they are solved for
                     cache_key = (
                         reward_functions[current_actor].tobytes(),
                         features[agent_preferences[current_actor]].tobytes(),
+                        VI_max_iter,
+                        VI_discount,
+                        VI_tol,
                     )
 
                     if caching and cache_key in cached_q_values[current_actor]:
-- 
2.43.0


From 10ed178a9124887a059f76027b4341d10816e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:49 +0000
Subject: [PATCH 55/58] fix: compare the moves along every direction in worlds
 without self-transitions

---
 maMDP/algorithms/irl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index b1272c4..3abb6f3 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -568,11 +568,14 @@ def get_trajectory_eyeline_features_diff(mdp, trajectories, normalise=True):
     chosen_feature_counts = np.zeros(mdp.n_features)
     unchosen_feature_counts = np.zeros(mdp.n_features)
 
+    # Staying in place, the last action where self-transitions are enabled, is not compared
+    n_move_actions = mdp.n_actions - 1 if getattr(mdp, 'self_transitions', False) else mdp.n_actions
+
     for trajectory in trajectories:
 
         for n, state in enumerate(trajectory[:-1]):
             chosen_action = state_pair_to_action(mdp, state, trajectory[n+1])
-            for action in range(mdp.n_actions-1):
+            for action in range(n_move_actions):
                 if action == chosen_action:
                     chosen_feature_counts += get_eyeline_features(mdp, state, action)
                 else:
-- 
2.43.0


From dc695ea94648da0701c39ef864b678c8a3a20a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:49 +0000
Subject: [PATCH 56/58] fix: allow hypothesis testing on trajectories in which
 no move was observed

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 3abb6f3..f526e7f 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -483,7 +483,7 @@ class HyptestIRL(BaseIRL):
             # Keep track of reward functions at the end of each trajectory
             observed_Rs.append(R_.copy())
 
-        Rs = np.stack(Rs)
+        Rs = np.array(Rs).reshape(-1, len(R_))  # Empty if no moves were observed
         observed_Rs = np.stack(observed_Rs)
 
         self.theta = R_  # Final estimate of reward weights
-- 
2.43.0


From aaf74be7009e3947e86d99aa023c15de208141dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:49 +0000
Subject: [PATCH 57/58] fix: refuse to save environments under repeated feature
 names

---
 maMDP/env_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 20e71b6..280b2fd 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -29,6 +29,9 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
     if not (env.mdp.n_features - len(env.agents)) == len(feature_names):
         raise AttributeError('Number of feature names should equal number of features, excluding agents')
 
+    if not len(set(feature_names)) == len(feature_names):
+        raise AttributeError('Feature names should be unique')
+
     env_dict = dict()
 
     env_dict['size'] = list(env.mdp.shape)
-- 
2.43.0


From a21c2608478d9aa9d35667906484524433dad3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:49 +0000
Subject: [PATCH 58/58] fix: reject environments with several agents of the
 same name

---
 maMDP/environments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 5b86c1f..852b41a 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -90,6 +90,11 @@ class Environment:
         self.n_agents = len(agents)
         self.agent_names = [agent.name for agent in agents.keys()]
 
+        if not len(set(self.agent_names)) == self.n_agents:
+            raise ValueError(
+                "Agent names should be unique, got {0}".format(self.agent_names)
+            )
+
         self.__mdp = mdp
 
         # Remove any agent-related features that may already be present in the MDP
-- 
2.43.0

