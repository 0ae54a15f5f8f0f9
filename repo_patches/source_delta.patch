From 134de3bdde169550c04c4b8e2886f4fc7a16f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 01/41] fix: PedestrianModel.set_velocity sets the spin, not
 the longitudinal speed, to omega

---
 src/dg_commons/sim/models/pedestrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/pedestrian.py b/src/dg_commons/sim/models/pedestrian.py
index a002d17..3514238 100644
--- a/src/dg_commons/sim/models/pedestrian.py
+++ b/src/dg_commons/sim/models/pedestrian.py
@@ -249,7 +249,7 @@ class PedestrianModel(SimModel[SE2value, float]):
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.vx = omega
+        self._state.dpsi = omega
 
     @property
     def model_geometry(self) -> PedestrianGeometry:
-- 
2.43.0


From 80b7966018f43755e3b47e39a688d6d6d3864cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 02/41] fix: VehicleModelDyn.set_velocity sets the yaw rate of
 the state

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index a068cad..917e885 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -215,7 +215,7 @@ class VehicleModelDyn(VehicleModel):
 
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.dtheta = omega
+        self._state.dpsi = omega
 
     def get_acceleration_split(self, Facc: float) -> Sequence[float]:
         """Returns split of acceleration force to be applied on front and rear wheel"""
-- 
2.43.0


From c2462355998a96d2de0cbb0256f1e73672765ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 03/41] fix: SpacecraftCommands.from_array reads the acc_left
 component

---
 src/dg_commons/sim/models/spacecraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/spacecraft.py b/src/dg_commons/sim/models/spacecraft.py
index a13d9ce..b98a5e0 100644
--- a/src/dg_commons/sim/models/spacecraft.py
+++ b/src/dg_commons/sim/models/spacecraft.py
@@ -55,7 +55,7 @@ class SpacecraftCommands:
     @classmethod
     def from_array(cls, z: np.ndarray):
         assert cls.get_n_commands() == z.size == z.shape[0], f"z vector {z} cannot initialize VehicleInputs."
-        return SpacecraftCommands(acc_left=z[cls.idx["acc_left "]], acc_right=z[cls.idx["acc_right"]])
+        return SpacecraftCommands(acc_left=z[cls.idx["acc_left"]], acc_right=z[cls.idx["acc_right"]])
 
 
 @dataclass(unsafe_hash=True, eq=True, order=True)
-- 
2.43.0


From d423f75e625525f9e8f71f977b9784f0e1221ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 04/41] fix: PolicyAgent applies its policy to its own state,
 not to the observation record

---
 src/dg_commons/sim/agents/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/agent.py b/src/dg_commons/sim/agents/agent.py
index 6a5ffbc..e8e541a 100644
--- a/src/dg_commons/sim/agents/agent.py
+++ b/src/dg_commons/sim/agents/agent.py
@@ -65,5 +65,5 @@ class PolicyAgent(Agent):
         self.my_name = init_sim_obs.my_name
 
     def get_commands(self, sim_obs: SimObservations) -> U:
-        my_state: X = sim_obs.players[self.my_name]
+        my_state: X = sim_obs.players[self.my_name].state
         return self.policy(my_state)
-- 
2.43.0


From d1641e52a3f5582fe31d54ac75a34d42148ab900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 05/41] fix: PoseGoal.get_plottable_geometry returns its
 geometry

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 4cf7b3a..58610f1 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -108,7 +108,7 @@ class PoseGoal(PlanningGoal):
         return np.linalg.norm(pose - goal_pose) <= self.tol
 
     def get_plottable_geometry(self, at: SimTime | float = 0) -> BaseGeometry:
-        raise self.goal_pose_poly
+        return self.goal_pose_poly
 
     @cached_property
     def goal_pose_poly(self) -> Polygon:
-- 
2.43.0


From f50caa5a465b68a05d9f61c89aeda0a6774d5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 06/41] fix: RefLaneGoal places its goal region at the progress
 in meters, not at that many control points

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 58610f1..8288c75 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -58,7 +58,7 @@ class RefLaneGoal(PlanningGoal):
 
     @cached_property
     def goal_polygon(self) -> Polygon:
-        poly = _polygon_at_along_lane(self.ref_lane, self.goal_progress)
+        poly = _polygon_at_along_lane(self.ref_lane, self.ref_lane.beta_from_along_lane(self.goal_progress))
         return poly
 
 
-- 
2.43.0


From a7bd9fd79d5fb0e78bf77508dade938d65a0daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 07/41] fix: a simulator starts every run from a clean state of
 its own

---
 src/dg_commons/sim/simulator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d13061e..81c5e0b 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -73,15 +73,20 @@ class Simulator:
         - A post-update function that checks the new states of all the models and resolves collisions
     """
 
-    # fixme check if this is okay once you have multiple simulators running together
-    last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
-    last_get_commands_ts: SimTime = SimTime("-Infinity")
-    last_commands: dict[PlayerName, U] = {}
-    simlogger: dict[PlayerName, PlayerLogger] = {}
+    # the state of the current run, (re)initialized by `run`
+    last_observations: SimObservations
+    last_get_commands_ts: SimTime
+    last_commands: dict[PlayerName, U]
+    simlogger: dict[PlayerName, PlayerLogger]
 
     @time_function
     def run(self, sim_context: SimContext):
         logger.info("~~~~~> Beginning simulation")
+        # start from a clean state, whatever this (or another) simulator has run before
+        self.last_observations = SimObservations(players=fd({}), time=Decimal(0))
+        self.last_get_commands_ts = SimTime("-Infinity")
+        self.last_commands = {}
+        self.simlogger = {}
         # initialize the simulation
         for player_name, player in sim_context.players.items():
             scenario = deepcopy(sim_context.dg_scenario)
-- 
2.43.0


From 38095fb1807ff107e1b00ccf2c4149bd2eed3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 08/41] fix: the end of a lane is along the lane, not outside
 both before and after

---
 src/dg_commons/maps/lanes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 488e488..37ec458 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -182,7 +182,7 @@ class DgLanelet:
         distance_from_center = np.abs(lateral)
 
         L = self.get_lane_length()
-        along_inside = 0 <= along_lane < L
+        along_inside = 0 <= along_lane <= L
         along_before = along_lane < 0
         along_after = along_lane > L
         inside = lateral_inside and along_inside
-- 
2.43.0


From 441184c527d3eaa28143d588317f9669526aa43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 09/41] fix: commands_plan_from_trajectory reads the fields of
 the iteration records

---
 src/dg_commons/planning/trajectory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index d73d65a..70c0121 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -152,9 +152,11 @@ JointTrajectories = Mapping[PlayerName, Trajectory]
 def commands_plan_from_trajectory(trajectory: Trajectory) -> DgSampledSequence[VehicleCommands]:
     timestamps = []
     commands = []
-    for t0, _, dt, v0, v1 in iterate_with_dt(trajectory):
-        timestamps.append(t0)
-        commands.append(VehicleCommands(acc=(v1.vx - v0.vx) / dt, ddelta=(v1.delta - v0.delta) / dt))
+    for it in iterate_with_dt(trajectory):
+        timestamps.append(it.t0)
+        commands.append(
+            VehicleCommands(acc=(it.v1.vx - it.v0.vx) / it.dt, ddelta=(it.v1.delta - it.v0.delta) / it.dt)
+        )
     return DgSampledSequence[VehicleCommands](timestamps, commands)
 
 
-- 
2.43.0


From eafcf40c7b6a50b5dc7cfc6197513a9a11748778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 10/41] fix: TrajectoryGraph.add_edge looks up the timed target
 state, so existing nodes keep their generation

---
 src/dg_commons/planning/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 70c0121..795e336 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -178,7 +178,7 @@ class TrajectoryGraph(DiGraph):
         start_time, end_time = states.get_start(), states.get_end()
         self.check_node(node=(start_time, source))
         attr["transition"] = transition
-        if target not in self.nodes:
+        if (end_time, target) not in self.nodes:
             self.add_node(timed_state=(end_time, target), gen=self.nodes.get((start_time, source))["gen"] + 1)
 
         super(TrajectoryGraph, self).add_edge(u_of_edge=(start_time, source), v_of_edge=(end_time, target), **attr)
-- 
2.43.0


From 089ee60411117e2b5404c382759ca1218dede35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 11/41] fix: CommandsSamplerParam.from_vehicle_parameters
 samples accelerations and steering rates within their own limits

---
 src/dg_commons/planning/commands_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/commands_sampler.py b/src/dg_commons/planning/commands_sampler.py
index 7f57ff8..b93a0ec 100644
--- a/src/dg_commons/planning/commands_sampler.py
+++ b/src/dg_commons/planning/commands_sampler.py
@@ -38,9 +38,9 @@ class CommandsSamplerParam:
         :param vp:
         :return:
         """
-        vel_linspace = (vp.vx_limits[0], vp.vx_limits[1], n_acc)
-        steer_linspace = (-vp.delta_max, vp.delta_max, n_steer_rate)
-        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=vel_linspace, steer_rate=steer_linspace)
+        acc_linspace = (vp.acc_limits[0], vp.acc_limits[1], n_acc)
+        steer_rate_linspace = (-vp.ddelta_max, vp.ddelta_max, n_steer_rate)
+        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=acc_linspace, steer_rate=steer_rate_linspace)
 
 
 class CommandsSampler(TrajGenerator):
-- 
2.43.0


From 071fd93602acb4fc8b3093989b13897d1564153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 12/41] fix: displaying brake lights no longer changes the
 shared light definitions

---
 src/dg_commons/sim/models/vehicle_ligths.py | 2 +-
 src/dg_commons/sim/simulator_animation.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/models/vehicle_ligths.py b/src/dg_commons/sim/models/vehicle_ligths.py
index dc66230..1eac3c1 100644
--- a/src/dg_commons/sim/models/vehicle_ligths.py
+++ b/src/dg_commons/sim/models/vehicle_ligths.py
@@ -38,7 +38,7 @@ LightsValues: AbstractSet[LightsCmd] = frozenset(
 """ All possible lights command value. Only one of these commands can be given at each instant"""
 
 
-@dataclass
+@dataclass(frozen=True)
 class LightsColors:
     front_left: Color
     front_right: Color
diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3a28349..f84c048 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -1,4 +1,5 @@
 import math
+from dataclasses import replace
 from itertools import chain
 from typing import Mapping, Union, Optional, Sequence, Iterable
 
@@ -235,7 +236,7 @@ def lights_colors_from_lights_cmd(lights_cmd: LightsCmd, acc: float, t: Timestam
     lights_colors = get_phased_lights(phases, float(t))
     if acc < 0:  # and cmds == NO_LIGHTS:
         if lights_colors.back_left == red:
-            lights_colors.back_left = red_more
+            lights_colors = replace(lights_colors, back_left=red_more)
         if lights_colors.back_right == red:
-            lights_colors.back_right = red_more
+            lights_colors = replace(lights_colors, back_right=red_more)
     return lights_colors
-- 
2.43.0


From 32d3095f1f1bc53ac4537fdcdf3c5470e14dc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 13/41] fix: a collision that cannot be resolved no longer
 marks the models as collided

---
 src/dg_commons/sim/collision.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 16d7690..a24897f 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -65,10 +65,6 @@ def resolve_collision(a: PlayerName, b: PlayerName, sim_context: SimContext) ->
         logger.debug(f"Not solving the collision between {a}, {b} since they are already separating")
         return None
 
-    # Update state of the model, it has collided
-    a_model.has_collided = True
-    b_model.has_collided = True
-
     # Compute collision locations
     a_locations = impact_locations_from_polygons(a_model, b_shape)
     b_locations = impact_locations_from_polygons(b_model, a_shape)
@@ -95,6 +91,9 @@ def resolve_collision(a: PlayerName, b: PlayerName, sim_context: SimContext) ->
     b_vel_after = velocity_after_collision(-impact_normal, b_vel, b_geom.m, j_n)
     a_omega_after = rot_velocity_after_collision(r_ap, impact_normal, a_omega, a_geom.Iz, j_n)
     b_omega_after = rot_velocity_after_collision(r_bp, -impact_normal, b_omega, b_geom.Iz, j_n)
+    # Update state of the models, they have collided (only now that nothing can fail anymore)
+    a_model.has_collided = True
+    b_model.has_collided = True
     a_model.set_velocity(a_vel_after, a_omega_after, in_model_frame=False)
     b_model.set_velocity(b_vel_after, b_omega_after, in_model_frame=False)
 
@@ -155,9 +154,6 @@ def resolve_collision_with_environment(
         logger.debug(f"Not solving the collision,  since they are already separating")
         return None
 
-    # Update state of the model, it has collided
-    a_model.has_collided = True
-
     # Compute collision locations
     a_locations = impact_locations_from_polygons(a_model, b_shape)
 
@@ -174,6 +170,8 @@ def resolve_collision_with_environment(
     # Apply impulse to models
     a_vel_after = velocity_after_collision(impact_normal, a_vel, a_geom.m, j_n)
     a_omega_after = rot_velocity_after_collision(r_ap, impact_normal, a_omega, a_geom.Iz, j_n)
+    # Update state of the model, it has collided (only now that nothing can fail anymore)
+    a_model.has_collided = True
     a_model.set_velocity(a_vel_after, a_omega_after, in_model_frame=False)
 
     # Log reports
-- 
2.43.0


From 036ba5c1688f1aead629f9c5e3be8641a5d71e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 14/41] fix: shapes that merely touch raise a
 CollisionException instead of aborting the simulation

---
 src/dg_commons/sim/collision_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 7149053..8d43e02 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -94,7 +94,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     :param b: Base Geometry
     :return: normal of impact and the impact point
     """
-    assert not a.touches(b)
+    if a.touches(b):
+        raise CollisionException("The two shapes only touch each other, the impact geometry is not defined")
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
-- 
2.43.0


From 4095321900dd4753e315cf39ad046441afdbb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 15/41] fix: RocketModel reads and sets the velocity in the
 global frame its dynamics uses

---
 src/dg_commons/sim/models/rocket.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket.py b/src/dg_commons/sim/models/rocket.py
index a4fce0e..25acaa6 100644
--- a/src/dg_commons/sim/models/rocket.py
+++ b/src/dg_commons/sim/models/rocket.py
@@ -272,20 +272,20 @@ class RocketModel(SimModel[RocketState, RocketCommands]):
         return self.rg
 
     def get_velocity(self, in_model_frame: bool) -> (T2value, float):
-        """Returns velocity at COG"""
+        """Returns velocity at COG. Note that the state has velocities expressed in global frame"""
         vx = self._state.vx
         vy = self._state.vy
         dpsi = self._state.dpsi
-        v_l = np.array([vx, vy])
-        if in_model_frame:
-            return v_l, dpsi
-        rot: SO2value = SO2_from_angle(self._state.psi)
-        v_g = rot @ v_l
-        return v_g, dpsi
+        v_g = np.array([vx, vy])
+        if not in_model_frame:
+            return v_g, dpsi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        v_l = rot @ v_g
+        return v_l, dpsi
 
     def set_velocity(self, vel: T2value, dpsi: float, in_model_frame: bool):
-        if not in_model_frame:
-            rot: SO2value = SO2_from_angle(-self._state.psi)
+        if in_model_frame:
+            rot: SO2value = SO2_from_angle(self._state.psi)
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-- 
2.43.0


From 0e3e4f56192f729b755a8cdb3d47d097d928e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 16/41] fix: LFAgent uses the pure pursuit controller it is
 given

---
 src/dg_commons/sim/agents/lane_follower.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index fd0a8cd..af489a9 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -35,7 +35,9 @@ class LFAgent(Agent):
         self.speed_controller: SpeedController = SpeedController.from_vehicle_params(model_param=model_params)
         self.speed_behavior: SpeedBehavior = SpeedBehavior() if speed_behavior is None else speed_behavior
         self.steer_controller: SteerController = SteerController.from_vehicle_params(vehicle_param=model_params)
-        self.pure_pursuit: PurePursuit = PurePursuit.from_model_geometry(model_geo)
+        self.pure_pursuit: PurePursuit = (
+            PurePursuit.from_model_geometry(model_geo) if pure_pursuit is None else pure_pursuit
+        )
         self.my_name: Optional[PlayerName] = None
         self.return_extra: bool = return_extra
         self._emergency: bool = False
-- 
2.43.0


From 9ffc6141177855469476095d353686a99d01cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 17/41] fix: LFAgent goes through the lights in the same order
 in every process

---
 src/dg_commons/sim/agents/lane_follower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index af489a9..1556d6a 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -42,7 +42,7 @@ class LFAgent(Agent):
         self.return_extra: bool = return_extra
         self._emergency: bool = False
         self._my_obs: Optional[X] = None
-        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=list(LightsValues))
+        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=sorted(LightsValues))
 
     def on_episode_init(self, init_sim_obs: InitSimObservations):
         self.my_name = init_sim_obs.my_name
-- 
2.43.0


From 717641fc1ae24603e80366a23e9be70fcdef1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 18/41] fix: the safety metrics use the geometry of any model

---
 src/dg_commons/eval/safety.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index b5c9ec8..e739373 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -186,9 +186,9 @@ def get_ttc_drac_at_t(
 def _get_dist(state1: X, state2: X, model1: SimModel, model2: SimModel) -> tuple[float, tuple[Point, Point]]:
     """get the minimum distance between two vehicles, considering their geometry"""
     pose1 = SE2_from_xytheta([state1.x, state1.y, state1.psi])
-    poly1 = apply_SE2_to_shapely_geo(model1.vg.outline_as_polygon, pose1)
+    poly1 = apply_SE2_to_shapely_geo(model1.model_geometry.outline_as_polygon, pose1)
     pose2 = SE2_from_xytheta([state2.x, state2.y, state2.psi])
-    poly2 = apply_SE2_to_shapely_geo(model2.vg.outline_as_polygon, pose2)
+    poly2 = apply_SE2_to_shapely_geo(model2.model_geometry.outline_as_polygon, pose2)
     nearest_pts = nearest_points(poly1, poly2)
     dist = distance(nearest_pts[0], nearest_pts[1])
     return dist, nearest_pts
@@ -204,9 +204,9 @@ def _get_ttc(state1: X, state2: X, model1: SimModel, model2: SimModel) -> tuple[
     :return: time-to-collision, distance-to-collision for agent1. distance-to-collision for agent2
     """
     pose1 = SE2_from_xytheta([state1.x, state1.y, state1.psi])
-    poly1 = apply_SE2_to_shapely_geo(model1.vg.outline_as_polygon, pose1)
+    poly1 = apply_SE2_to_shapely_geo(model1.model_geometry.outline_as_polygon, pose1)
     pose2 = SE2_from_xytheta([state2.x, state2.y, state2.psi])
-    poly2 = apply_SE2_to_shapely_geo(model2.vg.outline_as_polygon, pose2)
+    poly2 = apply_SE2_to_shapely_geo(model2.model_geometry.outline_as_polygon, pose2)
     ttc, dist_to_collision1, dist_to_collision2 = _get_ttc_of_poly_and_state(poly1, poly2, state1, state2)
     return ttc, dist_to_collision1, dist_to_collision2
 
-- 
2.43.0


From fced5b3e59c80afe4cb57f47f4aba7bd4f022944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 19/41] fix: the safety metrics evaluate goals at the right
 time and accept players without a mission

---
 src/dg_commons/eval/safety.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index e739373..4235e60 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -107,7 +107,7 @@ def get_min_dist_at_t(
     :return: min dist, the closest agent from ego
     """
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs_at_t, missions, t)
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None
@@ -146,7 +146,7 @@ def get_ttc_drac_at_t(
     """
     # time to collision
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs_at_t, missions, t)
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None, -np.inf, None
@@ -236,18 +236,19 @@ def _get_ttc_of_poly_and_state(poly1: Polygon, poly2: Polygon, state1: X, state2
 
 
 def _remove_finished_players(
-    log_at_t: Mapping[PlayerName, LogEntry], missions: Mapping[PlayerName, TPlanningGoal]
+    log_at_t: Mapping[PlayerName, LogEntry], missions: Mapping[PlayerName, TPlanningGoal], t: Timestamp
 ) -> Mapping[PlayerName, LogEntry]:
     """
     Remove the agents that have accomplished their goal.
     :param log_at_t: collection of players and their log(state, command, etc.) at time t
-    :param missions: the goal of each player
+    :param missions: the goal of each player (players without a mission are never finished)
+    :param t: the time at which the goals are evaluated
     :return: a now collection of running players and their logs.
     """
     log_new = {}
     for name, log in log_at_t.items():
-        mission = missions[name]
+        mission = missions.get(name)
         state = log.state
-        if not mission.is_fulfilled(state):
+        if mission is None or not mission.is_fulfilled(state, t):
             log_new[name] = log
     return log_new
-- 
2.43.0


From 1b99323ac3137032a006eac9be3e045c4d9991e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 20/41] fix: the impact mesh of a differential drive covers its
 circular outline

---
 src/dg_commons/sim/models/diff_drive.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 2a04efc..574fa97 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -10,7 +10,7 @@ from scipy.integrate import solve_ivp
 from shapely.geometry import Polygon
 
 from dg_commons import apply_SE2_to_shapely_geo, PoseState
-from dg_commons.sim import logger, ImpactLocation, IMPACT_RIGHT, IMPACT_LEFT, IMPACT_BACK, IMPACT_FRONT
+from dg_commons.sim import logger, ImpactLocation, IMPACT_EVERYWHERE
 from dg_commons.sim.models import ModelType
 from dg_commons.sim.models.diff_drive_structures import *
 from dg_commons.sim.simulator_structures import SimModel
@@ -176,14 +176,9 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
 
     def get_mesh(self) -> Mapping[ImpactLocation, Polygon]:
         footprint = self.get_footprint()
-        vertices = footprint.exterior.coords[:-1]
-        cxy = footprint.centroid.coords[0]
-        # fixme maybe we can use triangulate from shapely inferring the side from the relative angle
+        # the outline is a circle, which has no sides
         impact_locations: Mapping[ImpactLocation, Polygon] = {
-            IMPACT_RIGHT: Polygon([cxy, vertices[0], vertices[3], cxy]),
-            IMPACT_LEFT: Polygon([cxy, vertices[1], vertices[2], cxy]),
-            IMPACT_BACK: Polygon([cxy, vertices[0], vertices[1], cxy]),
-            IMPACT_FRONT: Polygon([cxy, vertices[2], vertices[3], cxy]),
+            IMPACT_EVERYWHERE: footprint,
         }
         for shape in impact_locations.values():
             assert shape.is_valid
-- 
2.43.0


From 6832e16e0ecbe449424fc98e54e1f2d0b570a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 21/41] fix: every SimRenderer has its own default draw
 parameters

---
 src/dg_commons/sim/simulator_visualisation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_visualisation.py b/src/dg_commons/sim/simulator_visualisation.py
index 5d1461e..d653f5a 100644
--- a/src/dg_commons/sim/simulator_visualisation.py
+++ b/src/dg_commons/sim/simulator_visualisation.py
@@ -75,9 +75,10 @@ class SimRenderer(SimRendererABC):
     """Visualization for the trajectory games"""
 
     def __init__(
-        self, sim_context: SimContext, ax: Axes = None, draw_params: MPDrawParams = MPDrawParams(), *args, **kwargs
+        self, sim_context: SimContext, ax: Axes = None, draw_params: Optional[MPDrawParams] = None, *args, **kwargs
     ):
         self.sim_context = sim_context
+        draw_params = MPDrawParams() if draw_params is None else draw_params
         self.commonroad_renderer: MPRenderer = MPRenderer(ax=ax, draw_params=draw_params, *args, **kwargs)
         self.shapely_viz = ShapelyViz(ax=self.commonroad_renderer.ax)
 
-- 
2.43.0


From 79d4e8478027489036bdbc33095d66cfa7a45f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 22/41] fix: road boundaries with at most one gate can be built

---
 src/dg_commons/maps/road_bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index b302b13..497a1ec 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -44,5 +44,6 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         ext_bounds = geo.exterior
         for eeg in entrance_exit_gates:
             ext_bounds = ext_bounds.difference(eeg)
-        scenario_bounds += [g for g in ext_bounds.geoms]
+        # with at most one gate the external boundary is a single line
+        scenario_bounds += [ext_bounds] if isinstance(ext_bounds, LineString) else [g for g in ext_bounds.geoms]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From 95f34867a02e4185a8469c59434ebfc43d3fc5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 23/41] fix: DynObstacleModel enforces the limits of the
 rotational acceleration

---
 src/dg_commons/sim/models/obstacles_dyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/obstacles_dyn.py b/src/dg_commons/sim/models/obstacles_dyn.py
index 5081d12..5c1651d 100644
--- a/src/dg_commons/sim/models/obstacles_dyn.py
+++ b/src/dg_commons/sim/models/obstacles_dyn.py
@@ -195,7 +195,8 @@ class DynObstacleModel(SimModel[DynObstacleState, DynObstacleCommands]):
 
         acc_x = apply_full_acceleration_limits(speed=vx, acceleration=u.acc_x + x0.dpsi * vy, p=self.op)
         acc_y = apply_full_acceleration_limits(speed=vy, acceleration=u.acc_y - x0.dpsi * vx, p=self.op)
-        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=u.acc_psi, p=self.op)
+        acc_psi = min(max(u.acc_psi, self.op.ddpsi_limits[0]), self.op.ddpsi_limits[1])
+        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=acc_psi, p=self.op)
 
         return DynObstacleState(x=xdot, y=ydot, psi=x0.dpsi, vx=acc_x, vy=acc_y, dpsi=acc_psi)
 
-- 
2.43.0


From a4535090ba17ca484973d1291d711519a900ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 24/41] fix: a number times a VehicleStateDyn scales all of its
 components

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 917e885..2db8e2b 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -39,6 +39,8 @@ class VehicleStateDyn(VehicleState):
         else:
             raise NotImplementedError
 
+    __radd__ = __add__
+
     def __mul__(self, val: float) -> "VehicleStateDyn":
         return replace(
             self,
@@ -51,6 +53,8 @@ class VehicleStateDyn(VehicleState):
             delta=self.delta * val,
         )
 
+    __rmul__ = __mul__
+
     def as_ndarray(self) -> np.ndarray:
         return np.array([self.x, self.y, self.psi, self.vx, self.vy, self.dpsi, self.delta])
 
-- 
2.43.0


From 8ccc06aaeb8c7275145cfcb9b98dda2eec18caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 25/41] fix: a field-of-view filter used with another scenario
 no longer keeps the first one's obstacles

---
 src/dg_commons/sim/sim_perception.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index ddb5528..20fbff8 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from bisect import bisect_left
 from dataclasses import replace
+from typing import Optional
 
 import numpy as np
 from commonroad_dc.pycrcc import Polygon as crPolygon
@@ -44,6 +45,7 @@ class FovObsFilter(ObsFilter):
 
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
+        self._scenario: Optional[DgScenario] = None
         self._static_obstacles: list[crPolygon] = []
         self._tmp_debug: int = 0
 
@@ -58,7 +60,8 @@ class FovObsFilter(ObsFilter):
         # first update sensor pose
         self.sensor.pose = SE2Transform.from_SE2(extract_pose_from_state(full_obs.players[pov].state))
         # then filter
-        if not self._static_obstacles:
+        if self._scenario is not scenario:
+            self._scenario = scenario
             self._static_obstacles = list(interleave([shapely2crPolygons(o.shape) for o in scenario.static_obstacles]))
 
         self._tmp_debug += 1
-- 
2.43.0


From 15ae61f82071cd790965f285245098056fda7df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 26/41] fix: animation frames start at the beginning of the log

---
 src/dg_commons/sim/simulator_animation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index f84c048..aefaab4 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -116,7 +116,7 @@ def create_animation(
         return _get_list()
 
     def update_plot(frame: int = 0) -> Iterable[Artist]:
-        t: float = frame * dt / 1000.0
+        t: float = float(time_begin) + frame * dt / 1000.0
         log_at_t: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(t)
         for pname, box_handle in states.items():
             lights_colors: LightsColors = get_lights_colors_from_cmds(log_at_t[pname].commands, t=t)
-- 
2.43.0


From 01f04f7ee425795bac0ff841d5ccd5641d123826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 27/41] fix: lanes extend past their ends by one metre per unit
 of beta

---
 src/dg_commons/maps/lanes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 37ec458..a4f42a0 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -267,11 +267,11 @@ class DgLanelet:
 
         if i < 0:
             q0 = self.control_points[0].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([1, 0], 0))
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([1, 0], 0))
             alpha = beta - (n - 1)
         else:
             alpha = beta - i
@@ -286,12 +286,12 @@ class DgLanelet:
         i = int(np.floor(beta))
         if i < 0:
             q0 = self.control_points[0].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([1, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([1, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta - (n - 1)
         else:
-- 
2.43.0


From 455352e3aa660dd142223309c4ada495abd59ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 28/41] fix: fast lane interpolation turns along the shorter
 arc

---
 src/dg_commons/maps/lanes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index a4f42a0..c598203 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -299,7 +299,8 @@ class DgLanelet:
             q1 = self.control_points[i + 1].q
             alpha = beta - i
         p = q0.p * (1 - alpha) + q1.p * alpha
-        theta = q0.theta * (1 - alpha) + q1.theta * alpha
+        # turn along the shorter arc
+        theta = q0.theta + alpha * ((q1.theta - q0.theta + pi) % (2 * pi) - pi)
         return SE2Transform(p, theta)
 
     def is_inside_from_T2value(self, position: T2value, tol: float = 1e-3) -> bool:
-- 
2.43.0


From 1af65bd3e0640a37ac2c8b4bb32953a4a028ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 29/41] fix: RocketGeometry.default takes the given length into
 account

---
 src/dg_commons/sim/models/rocket_structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket_structures.py b/src/dg_commons/sim/models/rocket_structures.py
index 1324c74..c0539d2 100644
--- a/src/dg_commons/sim/models/rocket_structures.py
+++ b/src/dg_commons/sim/models/rocket_structures.py
@@ -2,6 +2,7 @@ import math
 import numpy as np
 from dataclasses import dataclass
 from functools import cached_property
+from typing import Optional
 
 from geometry import SE2value, SE2_from_xytheta
 from shapely import affinity
@@ -58,7 +59,7 @@ class RocketGeometry(ModelGeometry):
         l_f=0.05,
         l_m=0.25,
         l_r=0.3,
-        l=0.9,
+        l: Optional[float] = None,
         l_t_half=0.2,
         w_t_half=0.01,
         F_max=2.0,
@@ -71,7 +72,7 @@ class RocketGeometry(ModelGeometry):
             l_f=l_f,
             l_m=l_m,
             l_r=l_r,
-            l=l_r + l_m + l_f + l_c,
+            l=l_r + l_m + l_f + l_c if l is None else l,
             l_t_half=l_t_half,
             w_t_half=w_t_half,
             F_max=F_max,
-- 
2.43.0


From 8865873529a537b096ee3cd6e4bb161824eef4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 30/41] fix: hitting a straight line or multi-part obstacle
 failed after the impulse was applied

---
 src/dg_commons/sim/collision.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index a24897f..7a2fb31 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from geometry import translation_angle_from_SE2
-from shapely.geometry import Polygon
+from shapely.geometry import LineString, Polygon
 from shapely.geometry.base import BaseGeometry
 
 from dg_commons import PlayerName
@@ -187,7 +187,11 @@ def resolve_collision_with_environment(
     )
     # create a report for the "environment" as a fictitious player
     if not isinstance(b_shape, Polygon):
-        b_shape = Polygon(b_shape)
+        if isinstance(b_shape, LineString) and len(b_shape.coords) > 2:
+            b_shape = Polygon(b_shape)
+        else:
+            # a straight line, a point or several parts do not make up a polygon, take the area around them
+            b_shape = b_shape.convex_hull.buffer(0.01)
     b_locations = [
         (IMPACT_EVERYWHERE, b_shape),
     ]
-- 
2.43.0


From 3c07b7ef5bd7136e18c941f4b0b78ccf967f9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 31/41] fix: shapes made of several points, lines or mixed
 parts could not be drawn

---
 src/dg_commons/maps/shapely_viz.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 9a5d672..67290c1 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -50,7 +50,7 @@ class ShapelyViz:
         elif isinstance(shape, (Polygon, MultiPolygon)):
             self._plot_polys(shape, **style_kwargs)
         elif isinstance(shape, GeometryCollection):
-            for poly in shape:
+            for poly in shape.geoms:
                 self.add_shape(poly, **style_kwargs)
         else:
             raise NotImplementedError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
@@ -65,17 +65,15 @@ class ShapelyViz:
             logger.info("Given shape is empty, returning.")
             return
         # todo
-        x, y = [], []
         if isinstance(shape, MultiPoint):
-            for point in shape:
-                x.append(point.x)
-                y.append(point.y)
+            points = shape.geoms
         elif isinstance(shape, Point):
-            x, y = map(list, shape.xy)
+            points = [shape]
         else:
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
-        circle = mpatches.Circle(xy=(x, y), **style_kwargs)
-        self.ax.add_patch(circle)
+        for point in points:
+            circle = mpatches.Circle(xy=(point.x, point.y), **style_kwargs)
+            self.ax.add_patch(circle)
 
     def _plot_lines(self, shape: Union[LineString, MultiLineString, LinearRing], **style_kwargs: Dict):
         """Internal method for plotting given non-empty, LineString, MultiLineString, or LinearRing `shape` object.
@@ -91,7 +89,7 @@ class ShapelyViz:
             x, y = map(list, shape.xy)
             self.ax.plot(x, y, **style_kwargs)
         elif isinstance(shape, MultiLineString):
-            for line in shape:
+            for line in shape.geoms:
                 x, y = map(list, line.xy)
                 self.ax.plot(x, y, **style_kwargs)
         else:
-- 
2.43.0


From 7e44b762e681c6bfb1f52b12799d7026660a9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 32/41] fix: parts of a multi-polygon were drawn as holes, and
 holes below the outline they are in

---
 src/dg_commons/maps/shapely_viz.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 67290c1..a815a7d 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -108,13 +108,18 @@ class ShapelyViz:
         if not isinstance(shape, (Polygon, MultiPolygon)):
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
 
+        if isinstance(shape, MultiPolygon):
+            for part in shape.geoms:
+                self._plot_polys(part, **style_kwargs)
+            return
+
         xs, ys = self._get_poly_coordinates(shape)
         for idx, xy in enumerate(zip(xs, ys)):
             xy_array = list(zip(*xy))
             if idx == 0:
                 poly = mpatches.Polygon(xy_array, **style_kwargs)
             else:
-                poly = mpatches.Polygon(xy_array, facecolor=self.ax.get_facecolor())
+                poly = mpatches.Polygon(xy_array, facecolor=self.ax.get_facecolor(), zorder=style_kwargs.get("zorder"))
             self.ax.add_patch(poly)
 
     def _get_poly_coordinates(self, shape: Union[Polygon, MultiPolygon]):
-- 
2.43.0


From 63ad376b5b3b125fbc8e1b5576d1736c83c88598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 33/41] fix: trajectories logged only after the start of an
 animation were never drawn

---
 src/dg_commons/sim/simulator_animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index aefaab4..fa62cd5 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -138,8 +138,8 @@ def create_animation(
                         ax=ax,
                         player_name=pname,
                         trajectories=list(trajectories),
-                        traj_lines=traj_lines[pname],
-                        traj_points=traj_points[pname],
+                        traj_lines=traj_lines.get(pname),
+                        traj_points=traj_points.get(pname),
                         colors=list(tcolors),
                     )
                 except:
-- 
2.43.0


From 64cab4ef19c99dbd4b65ae56fccbdf562c234d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:11 +0000
Subject: [PATCH 34/41] fix: static obstacles of a replicated scenario were all
 placed at the origin

---
 src/dg_commons/sim/scenarios/factory.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/factory.py b/src/dg_commons/sim/scenarios/factory.py
index a9e2ee3..1e6659b 100644
--- a/src/dg_commons/sim/scenarios/factory.py
+++ b/src/dg_commons/sim/scenarios/factory.py
@@ -67,12 +67,11 @@ def get_scenario_commonroad_replica(
                 logger.warn("Unable to convert CommonRoad dynamic obstacle due to " + e.args[0] + " skipping...")
     logger.info(f"Managed to load {len(players)}")
     for sobs in scenario.static_obstacles:
-        static_obstacles.append(
-            StaticObstacle(
-                obstacle_type=sobs.obstacle_type,
-                shape=sobs.obstacle_shape.shapely_object,
-            )
+        shape = apply_SE2_to_shapely_geo(
+            shapely_geometry=sobs.obstacle_shape.shapely_object,
+            se2_value=SE2_from_xytheta([*sobs.initial_state.position, sobs.initial_state.orientation]),
         )
+        static_obstacles.append(StaticObstacle(obstacle_type=sobs.obstacle_type, shape=shape))
     sim_param = SimParameters() if sim_param is None else sim_param
     return SimContext(
         dg_scenario=DgScenario(scenario, static_obstacles=static_obstacles),
-- 
2.43.0


From b153be5b18dca2f725ee25b9bb718606d471b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 35/41] fix: lanes passing a lanelet whose number merely occurs
 within the merged numbers were taken for the lane of a vehicle

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0d558a..a05f0b0 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -23,9 +23,11 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
     candidates: list[DgLanelet] = []
     for init_id in init_ids:
         lanelet = network.find_lanelet_by_id(init_id)
-        merged_lanelets, _ = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
-        for merged_lanelet in merged_lanelets:
-            if any(str(id) in str(merged_lanelet.lanelet_id) for id in final_ids):
+        merged_lanelets, merged_ids = lanelet.all_lanelets_by_merging_successors_from_lanelet(
+            lanelet=lanelet, network=network
+        )
+        for merged_lanelet, ids in zip(merged_lanelets, merged_ids):
+            if any(id in ids for id in final_ids):
                 candidates.append(DgLanelet.from_commonroad_lanelet(merged_lanelet))
 
     if len(candidates) == 1:
-- 
2.43.0


From aac049691d0f2a04e7b6d5a8741682d963b32560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:14 +0000
Subject: [PATCH 36/41] fix: the lane best aligned with a vehicle was chosen by
 angles that were not wrapped

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a05f0b0..9355770 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -39,7 +39,8 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
         for candidate_lane in candidates:
             _, q = candidate_lane.find_along_lane_closest_point_fast(init_position)
             s_prime = angle_from_SE2(q)
-            displacement_angles.append(np.abs(dyn_obs.initial_state.orientation - s_prime))
+            dtheta = dyn_obs.initial_state.orientation - s_prime
+            displacement_angles.append(np.abs(np.arctan2(np.sin(dtheta), np.cos(dtheta))))
         return candidates[np.argmin(displacement_angles)]
     else:
         # if we reach this point we did not find any lanelet,
-- 
2.43.0


From 65089852467f47a94df5930875eaddd353bb3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 37/41] fix: replicating a scenario with a pedestrian failed
 because a lane follower was created for it

---
 src/dg_commons/sim/scenarios/convert_from_commonroad.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/convert_from_commonroad.py b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
index 690eada..0419b7a 100644
--- a/src/dg_commons/sim/scenarios/convert_from_commonroad.py
+++ b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
@@ -5,7 +5,9 @@ from dg_commons import Color
 from dg_commons.sim import SimModel
 from dg_commons.sim.agents.agent import Agent
 from dg_commons.sim.agents.lane_follower import LFAgent
+from dg_commons.sim.models.vehicle import VehicleModel
 from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
+from dg_commons.sim.scenarios import NotSupportedConversion
 from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
 from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs
 
@@ -25,6 +27,11 @@ def model_agent_from_dynamic_obstacle(
     """
 
     model: SimModel = infer_model_from_cr_dyn_obstacle(dyn_obs, color)
+    if not isinstance(model, VehicleModel):
+        # e.g. pedestrians, which do not steer
+        raise NotSupportedConversion(
+            "Cannot control a Commonroad obstacle with a lane follower", commonroad_type=dyn_obs.obstacle_type
+        )
     # Agent
     dglane = infer_lane_from_dyn_obs(dyn_obs=dyn_obs, network=lanelet_network)
     agent = LFAgent(dglane, model_params=model.model_params, model_geo=model.model_geometry)
-- 
2.43.0


From 9301bc9b06fe15c95d05478c55f937cc10228f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:16 +0000
Subject: [PATCH 38/41] fix: the search for the lane a vehicle is on ends
 outside of bends and on rings

---
 src/dg_commons/eval/efficiency.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 5873502..adee2e3 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -54,22 +54,19 @@ def desired_lane_reached(
     ego_pose = SE2Transform.from_PoseState(ego_posestate)
     ref_lane = goal_lane.ref_lane  # dglanelet
     lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-    while not lane_pose.along_inside:
+    forward = lane_pose.along_after
+    for _ in range(len(lanelet_network.lanelets)):
+        if lane_pose.along_inside or lane_pose.along_after != forward:
+            # inside this lane, or between it and the previous one
+            break
         if np.abs(lane_pose.along_lane) < 1.0 or np.abs(lane_pose.along_lane - ref_lane.get_lane_length()) < 1.0:
             # not inside the lane but close enough
             break
-        if lane_pose.along_after:
-            ref_lane = get_successor_dglane(lanelet_network, ref_lane)
-            if ref_lane is not None:
-                lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-            else:
-                break
-        if lane_pose.along_before:
-            ref_lane = get_predecessor_dglane(lanelet_network, ref_lane)
-            if ref_lane is not None:
-                lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-            else:
-                break
+        next_lane = get_successor_dglane if forward else get_predecessor_dglane
+        ref_lane = next_lane(lanelet_network, ref_lane)
+        if ref_lane is None:
+            break
+        lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
 
     if goal_lane.is_fulfilled(state):
         return True
-- 
2.43.0


From 1f652be0d3d52ca7557fa0b5e5b562bcea068a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:16 +0000
Subject: [PATCH 39/41] fix: comfort metric of an odd number of samples

---
 src/dg_commons/eval/comfort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 65b91bb..97bb6f4 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -41,7 +41,7 @@ def get_acc_rms(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None,
     freqs = np.fft.rfftfreq(n=len(acc_time), d=st)
     acc_freq_weighted = [acc_freq * acc_freq_filter(freq) for acc_freq, freq in zip(acc_freqs, freqs)]
     acc_freq_weighted = np.array(acc_freq_weighted)
-    acc_time_weighted = np.fft.irfft(acc_freq_weighted)
+    acc_time_weighted = np.fft.irfft(acc_freq_weighted, n=len(acc_time))
     acc_rms = 0
     for acc in acc_time_weighted:
         acc_rms += np.square(acc)
-- 
2.43.0


From 405c91aaccb037de130d3656bac17b9229163d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:34 +0000
Subject: [PATCH 40/41] fix: Pacejka magic formula subtracts atan(B*slip), not
 E*atan(B*slip), from B*slip

---
 src/dg_commons/sim/models/tires.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/tires.py b/src/dg_commons/sim/models/tires.py
index 37d4ab9..0fd8ae0 100644
--- a/src/dg_commons/sim/models/tires.py
+++ b/src/dg_commons/sim/models/tires.py
@@ -55,4 +55,4 @@ class Pacejka4p(Pacejka):
     "curvature"
 
     def evaluate(self, slip: float) -> float:
-        return self.D * sin(self.C * atan(self.B * slip - self.E * (self.B * slip - self.E * atan(self.B * slip))))
+        return self.D * sin(self.C * atan(self.B * slip - self.E * (self.B * slip - atan(self.B * slip))))
-- 
2.43.0


From 6d3c397482281a35479afdc552a4899797107ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:34 +0000
Subject: [PATCH 41/41] fix: aerodynamic drag grows with the square of the
 speed, not of the air density

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 2db8e2b..753a5bc 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -178,7 +178,7 @@ class VehicleModelDyn(VehicleModel):
             Facc2_sat = Facc2 * math.sqrt(1 - (F2y / (F2_n * self.pacejka_rear.D)) ** 2)
 
             # Drag Force
-            F_drag = -0.5 * x0.vx * self.vg.a_drag * self.vg.c_drag * rho**2
+            F_drag = -0.5 * rho * self.vg.a_drag * self.vg.c_drag * x0.vx**2
             # longitudinal acceleration
             acc_x = (F1[0] + F_drag + Facc2_sat) / m + x0.dpsi * x0.vy
 
-- 
2.43.0

