From aa052e305a2a8e22836b2a3e0d298e75820d6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:14 +0000
Subject: [PATCH 01/53] =?UTF-8?q?fix:=20PhaseDifference=20returned=20the?=
 =?UTF-8?q?=20wrong=20sign=20for=200=20and=203=CF=80/2?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 emerge/core/phase.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/emerge/core/phase.go b/emerge/core/phase.go
index 79f3699..162bd59 100644
--- a/emerge/core/phase.go
+++ b/emerge/core/phase.go
@@ -14,22 +14,7 @@ func PhaseDifference(phase1, phase2 float64) float64 {
 	diff := phase1 - phase2
 
 	// Use atan2 to get the correct phase difference considering the circle
-	result := math.Atan2(math.Sin(diff), math.Cos(diff))
-
-	// Handle specific edge cases for test compatibility
-	const eps = 1e-10
-
-	// Special case: 0 to 3π/2 should return -π/2 (clockwise)
-	if math.Abs(phase1) < eps && math.Abs(phase2-3*math.Pi/2) < eps {
-		return -math.Pi / 2
-	}
-
-	// Special case: 3π/2 to 0 should return π/2 (counterclockwise)
-	if math.Abs(phase1-3*math.Pi/2) < eps && math.Abs(phase2) < eps {
-		return math.Pi / 2
-	}
-
-	return result
+	return math.Atan2(math.Sin(diff), math.Cos(diff))
 }
 
 // MeasureCoherence calculates the Kuramoto order parameter for phase synchronization.
-- 
2.43.0


From d5f682038c0ec0d6b5d67c3241400225d22351c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 02/53] fix: frequency gap severity exceeded its documented 0-1
 range

---
 emerge/core/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/core/pattern.go b/emerge/core/pattern.go
index 61c9038..1983562 100644
--- a/emerge/core/pattern.go
+++ b/emerge/core/pattern.go
@@ -70,7 +70,7 @@ func IdentifyGaps(current, target *TargetPattern) []PatternGap {
 				Type:     "frequency",
 				Current:  float64(current.Frequency),
 				Target:   float64(target.Frequency),
-				Severity: math.Abs(freqRatio - 1.0),
+				Severity: math.Min(math.Abs(freqRatio-1.0), 1.0),
 			})
 		}
 	}
-- 
2.43.0


From 69fc7a50183ef38f842e9a0548dcc6a2c013a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 03/53] fix: normalizing a state with a large phase did not
 terminate

---
 emerge/core/state.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/emerge/core/state.go b/emerge/core/state.go
index 731e58b..e423208 100644
--- a/emerge/core/state.go
+++ b/emerge/core/state.go
@@ -81,12 +81,7 @@ func (s *State) NormalizeAndValidate() error {
 func (s *State) normalize() {
 	// Wrap phase to [0, 2π]
 	if !math.IsNaN(s.Phase) && !math.IsInf(s.Phase, 0) {
-		for s.Phase < 0 {
-			s.Phase += 2 * math.Pi
-		}
-		for s.Phase >= 2*math.Pi {
-			s.Phase -= 2 * math.Pi
-		}
+		s.Phase = WrapPhase(s.Phase)
 	}
 
 	// Clamp coherence to [0, 1]
-- 
2.43.0


From dcdeabb47e21c99f4f808d195be872345d97d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 04/53] fix: concurrent agent state updates were lost

---
 emerge/agent/atomic_state.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/emerge/agent/atomic_state.go b/emerge/agent/atomic_state.go
index b32601c..ab5efc0 100644
--- a/emerge/agent/atomic_state.go
+++ b/emerge/agent/atomic_state.go
@@ -47,12 +47,19 @@ func (a *AtomicState) Store(state StateData) {
 }
 
 // Update atomically updates the state.
-// For simplicity, this just loads, modifies, and stores.
-// In high contention scenarios, consider using a mutex instead.
+// Under contention fn may run more than once, so it must not have side effects.
 func (a *AtomicState) Update(fn func(*StateData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := StateData{}
+		if data, ok := old.(*StateData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
 
 // AtomicBehavior uses atomic.Value for behavioral parameters.
@@ -83,8 +90,17 @@ func (a *AtomicBehavior) Store(behavior BehaviorData) {
 }
 
 // Update atomically updates the behavior.
+// Under contention fn may run more than once, so it must not have side effects.
 func (a *AtomicBehavior) Update(fn func(*BehaviorData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := BehaviorData{}
+		if data, ok := old.(*BehaviorData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
-- 
2.43.0


From 08cf71c863e3be151f2741d38e9fc53079214e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 05/53] fix: concurrent actions could overspend an agent's
 energy

---
 emerge/agent/agent.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 74b94ab..20b63d6 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -438,39 +438,53 @@ func (a *Agent) ProposeAdjustment(globalGoal core.State) (core.Action, bool) {
 
 // ApplyAction executes an action with optimized state updates.
 func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
-	state := a.state.Load()
 	energyCost := action.Cost
 
-	if energyCost > state.Energy {
-		return false, 0, fmt.Errorf("%w: required %.2f, available %.2f",
-			core.ErrInsufficientEnergy, energyCost, state.Energy)
+	if available := a.state.Load().Energy; energyCost > available {
+		return false, 0, insufficientEnergy(energyCost, available)
 	}
 
-	// Apply action and update energy in a single atomic operation
+	// Apply action and update energy in a single atomic operation. Energy may
+	// have been spent concurrently, so it is checked again inside the update.
 	success := false
+	available := 0.0
 	switch action.Type {
 	case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
 		a.state.Update(func(s *StateData) {
-			s.Phase = core.WrapPhase(s.Phase + action.Value)
-			s.Energy = math.Max(0, s.Energy-energyCost)
+			available = s.Energy
+			if success = energyCost <= available; success {
+				s.Phase = core.WrapPhase(s.Phase + action.Value)
+				s.Energy = math.Max(0, s.Energy-energyCost)
+			}
 		})
-		success = true
 	case "maintain":
 		a.state.Update(func(s *StateData) {
-			s.Energy = math.Max(0, s.Energy-energyCost)
+			available = s.Energy
+			if success = energyCost <= available; success {
+				s.Energy = math.Max(0, s.Energy-energyCost)
+			}
 		})
-		success = true
 	default:
 		return false, 0, fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
 	}
 
-	if success && a.resources != nil {
+	if !success {
+		return false, 0, insufficientEnergy(energyCost, available)
+	}
+
+	if a.resources != nil {
 		a.resources.Request(energyCost)
 	}
 
 	return success, energyCost, nil
 }
 
+// insufficientEnergy reports an action the agent cannot afford.
+func insufficientEnergy(required, available float64) error {
+	return fmt.Errorf("%w: required %.2f, available %.2f",
+		core.ErrInsufficientEnergy, required, available)
+}
+
 // calculateLocalCoherence efficiently calculates coherence.
 func (a *Agent) calculateLocalCoherence() float64 {
 	var neighborList []*Agent
-- 
2.43.0


From 120c5d163dac1a92c02499e2e8f0225030c11983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 06/53] fix: neighbor queries and perception missed some
 connections

---
 emerge/agent/agent.go | 73 +++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 20b63d6..dbc60ce 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -249,23 +249,35 @@ func (a *Agent) SetDecisionMaker(dm core.DecisionMaker) {
 
 // NeighborCount returns the number of connected neighbors.
 func (a *Agent) NeighborCount() int {
-	// Check both storage methods for compatibility
-	optimizedCount := 0
+	return len(a.neighborList())
+}
+
+// neighborList returns every connected neighbor once. Connections live in the
+// optimized storage or in the neighbors map (see Neighbors), so both count.
+func (a *Agent) neighborList() []*Agent {
+	var list []*Agent
+	var seen map[string]struct{}
 	if a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
-		optimizedCount = a.optimizedNeighbors.Count()
+		seen = make(map[string]struct{})
+		a.optimizedNeighbors.Range(func(id string, neighbor *Agent) bool {
+			seen[id] = struct{}{}
+			list = append(list, neighbor)
+			return true
+		})
 	}
 
-	mapCount := 0
-	a.neighbors.Range(func(_, _ any) bool {
-		mapCount++
+	a.neighbors.Range(func(key, value any) bool {
+		if id, ok := key.(string); ok {
+			if _, dup := seen[id]; dup {
+				return true
+			}
+		}
+		if neighbor, ok := value.(*Agent); ok {
+			list = append(list, neighbor)
+		}
 		return true
 	})
-
-	// Return the max to handle both cases
-	if optimizedCount > mapCount {
-		return optimizedCount
-	}
-	return mapCount
+	return list
 }
 
 // Neighbors returns the agent's neighbors map for compatibility.
@@ -281,9 +293,8 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 		return
 	}
 
-	if a.useOptimizedNeighbors {
-		a.optimizedNeighbors.Store(otherID, other)
-	} else {
+	// The optimized storage has a fixed capacity; the map takes what exceeds it.
+	if !a.useOptimizedNeighbors || !a.optimizedNeighbors.Store(otherID, other) {
 		a.neighbors.Store(otherID, other)
 	}
 }
@@ -292,16 +303,16 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 func (a *Agent) DisconnectFrom(otherID string) {
 	if a.useOptimizedNeighbors {
 		a.optimizedNeighbors.Delete(otherID)
-	} else {
-		a.neighbors.Delete(otherID)
 	}
+	a.neighbors.Delete(otherID)
 }
 
 // IsConnectedTo checks if connected to another agent.
 func (a *Agent) IsConnectedTo(otherID string) bool {
 	if a.useOptimizedNeighbors {
-		_, exists := a.optimizedNeighbors.Load(otherID)
-		return exists
+		if _, exists := a.optimizedNeighbors.Load(otherID); exists {
+			return true
+		}
 	}
 	_, exists := a.neighbors.Load(otherID)
 	return exists
@@ -310,17 +321,7 @@ func (a *Agent) IsConnectedTo(otherID string) bool {
 // UpdateContext updates the agent's perception efficiently with both optimizations.
 func (a *Agent) UpdateContext() {
 	// Get neighbors efficiently
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.neighborList()
 
 	if len(neighborList) == 0 {
 		a.context.Store(core.Context{
@@ -487,17 +488,7 @@ func insufficientEnergy(required, available float64) error {
 
 // calculateLocalCoherence efficiently calculates coherence.
 func (a *Agent) calculateLocalCoherence() float64 {
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.neighborList()
 
 	if len(neighborList) == 0 {
 		return 0
-- 
2.43.0


From f8d2778bdbcabbc628e72e341f96951aa821d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 07/53] fix: agents without swarm information perceived a
 negative density

---
 emerge/agent/agent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index dbc60ce..ce553ed 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -370,7 +370,10 @@ func (a *Agent) UpdateContext() {
 	if maxNeighbors == 0 {
 		maxNeighbors = a.swarmSize - 1
 	}
-	density := float64(neighborCount) / float64(maxNeighbors)
+	density := 0.0 // Unknown without swarm information
+	if maxNeighbors > 0 {
+		density = float64(neighborCount) / float64(maxNeighbors)
+	}
 
 	// Store context
 	a.context.Store(core.Context{
-- 
2.43.0


From 04db43a66404c640da19b5b7199f5281e3aa6bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:12 +0000
Subject: [PATCH 08/53] fix: pooled agents crashed when fresh and kept
 connections when recycled

---
 emerge/agent/pool.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 0aef185..76521a5 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -7,7 +7,10 @@ import (
 
 	"github.com/carlisia/bio-adapt/emerge/core"
 	"github.com/carlisia/bio-adapt/emerge/decision"
+	"github.com/carlisia/bio-adapt/emerge/goal"
+	"github.com/carlisia/bio-adapt/emerge/strategy"
 	"github.com/carlisia/bio-adapt/internal/random"
+	"github.com/carlisia/bio-adapt/internal/resource"
 )
 
 // Pool manages a pool of reusable Agent objects to reduce allocations.
@@ -48,8 +51,8 @@ func (p *PoolManager) Get(id string) *Agent {
 		panic("pool returned non-Agent type")
 	}
 
-	// Check if this is a newly created agent
-	if a.ID == "" {
+	// Check if this is a newly created agent (recycled ones keep their state)
+	if a.state == nil {
 		p.stats.news.Add(1)
 	}
 
@@ -84,6 +87,29 @@ func (p *PoolManager) Stats() (gets, puts, news uint64, inUse int64) {
 func (a *Agent) Reset(id string) {
 	a.ID = id
 
+	// Agents fresh from the pool have no components yet
+	if a.state == nil {
+		a.state = NewAtomicState()
+	}
+	if a.behavior == nil {
+		a.behavior = NewAtomicBehavior()
+	}
+	if a.optimizedNeighbors == nil {
+		a.optimizedNeighbors = NewNeighborStorage(20)
+		a.useOptimizedNeighbors = true
+	}
+	if a.goalManager == nil {
+		a.goalManager = &goal.WeightedManager{}
+	}
+	if a.strategy == nil {
+		a.strategy = &strategy.PhaseNudge{Rate: 0.3}
+	}
+
+	// Energy and swarm information belong to the previous use
+	a.resources = resource.NewTokenManager(100)
+	a.swarmSize = 0
+	a.assumedMaxNeighbors = 0
+
 	// Reset atomic values to defaults
 	a.state.Store(StateData{
 		Phase:     random.Phase(),
@@ -97,6 +123,7 @@ func (a *Agent) Reset(id string) {
 	})
 
 	// Clear neighbors but keep the map allocated
+	a.optimizedNeighbors.Clear()
 	a.neighbors.Range(func(key, _ interface{}) bool {
 		a.neighbors.Delete(key)
 		return true
@@ -116,6 +143,9 @@ func (a *Agent) Clear() {
 	a.ID = ""
 
 	// Clear neighbors
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 	a.neighbors.Range(func(key, _ interface{}) bool {
 		a.neighbors.Delete(key)
 		return true
-- 
2.43.0


From d1b81c60d965c38d879b5bf489ef21774d046c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:12 +0000
Subject: [PATCH 09/53] fix: large swarms ignored disruption and agent
 iteration

---
 emerge/swarm/swarm.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 98b97ae..e3ae30d 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -566,19 +566,15 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 	}
 
 	targetCount := int(float64(s.Size()) * percentage)
-	disrupted := 0
-
-	s.agents.Range(func(_, value any) bool {
-		if disrupted >= targetCount {
-			return false
-		}
+	agents := s.collectAgents()
+	targetCount = minInt(targetCount, len(agents))
 
-		if a, ok := value.(*agent.Agent); ok {
-			a.SetPhase(random.Phase())
-			disrupted++
-		}
-		return true
-	})
+	// Pick the agents at random (partial shuffle)
+	for i := range targetCount {
+		j := i + random.Intn(len(agents)-i)
+		agents[i], agents[j] = agents[j], agents[i]
+		agents[i].SetPhase(random.Phase())
+	}
 
 	// Important: After disruption, the goal-directed sync may have already
 	// completed and returned from its AchieveSynchronization loop.
@@ -610,6 +606,15 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 // ForEachAgent applies a function to each agent in the swarm.
 // This provides controlled access to agents without exposing the internal map.
 func (s *Swarm) ForEachAgent(fn func(*agent.Agent) bool) {
+	if s.optimized {
+		for _, a := range s.collectAgents() {
+			if !fn(a) {
+				return
+			}
+		}
+		return
+	}
+
 	s.agents.Range(func(_, value any) bool {
 		if agent, ok := value.(*agent.Agent); ok {
 			return fn(agent)
-- 
2.43.0


From dd33b1475909ba38ff489bec4195cfd6550cc579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:12 +0000
Subject: [PATCH 10/53] fix: large swarms ignored a custom agent builder

---
 emerge/swarm/swarm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index e3ae30d..38db011 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -290,6 +290,11 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 	return func(s *Swarm) error {
 		for i := range s.size {
 			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
+			if s.optimized {
+				s.agentIndex[a.ID] = len(s.agentSlice)
+				s.agentSlice = append(s.agentSlice, a)
+				continue
+			}
 			s.agents.Store(a.ID, a)
 		}
 		return nil
-- 
2.43.0


From ff98e5789cfb66c638526522d52af3bb9d58d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:39 +0000
Subject: [PATCH 11/53] fix: a custom topology ran before the swarm had any
 agents

---
 emerge/swarm/swarm.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 38db011..d7301d8 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -43,8 +43,8 @@ type Swarm struct {
 	basin       *emerge.AttractorBasin
 	convergence *monitoring.ConvergenceMonitor
 
-	// Track initialization state
-	connectionsEstablished bool
+	// Custom topology, applied once all agents exist
+	topology func(*Swarm) error
 
 	// Goal-directed synchronization
 	goalDirectedSync *GoalDirectedSync
@@ -148,8 +148,12 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		}
 	}
 
-	// Establish connections if not already done
-	if !s.connectionsEstablished {
+	// Establish connections
+	if s.topology != nil {
+		if err := s.topology(s); err != nil {
+			return nil, fmt.Errorf("topology build failed: %w", err)
+		}
+	} else {
 		s.establishConnections()
 	}
 
@@ -304,10 +308,7 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 // WithTopology uses a custom topology builder.
 func WithTopology(builder func(*Swarm) error) Option {
 	return func(s *Swarm) error {
-		if err := builder(s); err != nil {
-			return fmt.Errorf("topology build failed: %w", err)
-		}
-		s.connectionsEstablished = true
+		s.topology = builder
 		return nil
 	}
 }
-- 
2.43.0


From 88c504f8414b64600d431cc6c6bd7077046bfda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:16 +0000
Subject: [PATCH 12/53] fix: phase convergence was wrong for targets outside
 one turn

---
 emerge/swarm/phase_convergence.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/emerge/swarm/phase_convergence.go b/emerge/swarm/phase_convergence.go
index 45c540c..c183c55 100644
--- a/emerge/swarm/phase_convergence.go
+++ b/emerge/swarm/phase_convergence.go
@@ -2,6 +2,8 @@ package swarm
 
 import (
 	"math"
+
+	"github.com/carlisia/bio-adapt/emerge/core"
 )
 
 // MeasurePhaseConvergence calculates how well agents have converged to a target phase.
@@ -17,11 +19,7 @@ func (s *Swarm) MeasurePhaseConvergence(targetPhase float64) float64 {
 	for _, agent := range agents {
 		phase := agent.Phase()
 		// Calculate circular distance
-		diff := math.Abs(phase - targetPhase)
-		// Handle wraparound
-		if diff > math.Pi {
-			diff = 2*math.Pi - diff
-		}
+		diff := math.Abs(core.PhaseDifference(phase, targetPhase))
 		totalDistance += diff
 	}
 
-- 
2.43.0


From 7a9754723a6c69e2632d46d29a5918b6abbafb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:17 +0000
Subject: [PATCH 13/53] fix: ambitious targets gave up before the first
 iteration

---
 emerge/swarm/goal_directed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 1366d36..4e074d3 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -92,8 +92,8 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 	// Adjust max iterations based on difficulty
 	timeFactor := GetConvergenceTimeFactor(swarmSize, target.Coherence)
-	maxIterations := int(gds.config.Strategy.MaxIterationsFactor * timeFactor)
-	maxIterations = min(maxIterations, 1000) // Cap at reasonable limit
+	// Cap at reasonable limit (the factor is infinite beyond the practical limit)
+	maxIterations := int(math.Min(gds.config.Strategy.MaxIterationsFactor*timeFactor, 1000))
 
 	// Goal-directed loop
 	ticker := time.NewTicker(gds.config.Strategy.UpdateInterval)
-- 
2.43.0


From b3f4a5b44813f56a25af58509a9f48428a449be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 14/53] fix: continuous operation ended when one
 synchronization attempt failed

---
 emerge/swarm/swarm_continuous_run.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index a46aea3..0037089 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -2,7 +2,6 @@ package swarm
 
 import (
 	"context"
-	"errors"
 	"math"
 	"time"
 
@@ -214,15 +213,11 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		case <-ctx.Done():
 			return ctx.Err()
 
-		case err := <-syncDone:
+		case <-syncDone:
+			// Synchronization completed or ran out of iterations; either way
+			// continue monitoring, which restarts it when needed
 			state.syncActive = false
 
-			if err != nil && !errors.Is(err, context.Canceled) {
-				// Real error occurred
-				return err
-			}
-			// Synchronization completed successfully, continue monitoring
-
 		case <-ticker.C:
 			currentCoherence := s.MeasureCoherence()
 
-- 
2.43.0


From d005daf01a2dca266e8b75a289eda4ca28b33dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:30 +0000
Subject: [PATCH 15/53] fix: convergence was never recorded, so a swarm never
 reported it

---
 emerge/swarm/goal_directed.go | 18 +++++++++++++-----
 emerge/swarm/swarm.go         |  9 +++++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 4e074d3..eee9095 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -114,6 +114,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 			// Step 2: Record convergence
 			gds.convergenceMonitor.RecordSample(currentPattern, coherence)
+			gds.swarm.convergence.Record(coherence)
 
 			// Step 3: Check if we've achieved the goal
 			if gds.isPatternAchieved(currentPattern) {
@@ -178,10 +179,9 @@ func (gds *GoalDirectedSync) measureSystemPattern() *core.TargetPattern {
 	}
 }
 
-// isPatternAchieved checks if we've reached the target.
-func (gds *GoalDirectedSync) isPatternAchieved(current *core.TargetPattern) bool {
-	distance := core.PatternDistance(current, gds.targetPattern)
-
+// coherenceTolerance returns how far below the target coherence still counts as
+// reaching it.
+func (gds *GoalDirectedSync) coherenceTolerance(targetCoherence float64) float64 {
 	// Adaptive tolerance based on swarm size and theoretical limits
 	swarmSize := len(gds.swarm.Agents())
 	limits := GetCoherenceLimits(swarmSize)
@@ -198,10 +198,18 @@ func (gds *GoalDirectedSync) isPatternAchieved(current *core.TargetPattern) bool
 	}
 
 	// If we're very close to practical limit, be more lenient
-	if gds.targetPattern.Coherence >= limits.Practical*0.95 {
+	if targetCoherence >= limits.Practical*0.95 {
 		tolerance *= 2
 	}
 
+	return tolerance
+}
+
+// isPatternAchieved checks if we've reached the target.
+func (gds *GoalDirectedSync) isPatternAchieved(current *core.TargetPattern) bool {
+	distance := core.PatternDistance(current, gds.targetPattern)
+
+	tolerance := gds.coherenceTolerance(gds.targetPattern.Coherence)
 	coherenceAchieved := current.Coherence >= gds.targetPattern.Coherence-tolerance
 	distanceAchieved := distance < gds.config.Convergence.PatternDistanceThreshold
 
diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index d7301d8..b2f85a6 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -163,6 +163,7 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 	} else {
 		s.goalDirectedSync = NewGoalDirectedSync(s)
 	}
+	s.trackConvergence()
 
 	return s, nil
 }
@@ -207,10 +208,18 @@ func NewSwarmFromConfig(size int, goal core.State, cfg config.Swarm) (*Swarm, er
 	} else {
 		s.goalDirectedSync = NewGoalDirectedSync(s)
 	}
+	s.trackConvergence()
 
 	return s, nil
 }
 
+// trackConvergence sets up convergence tracking with the level at which
+// synchronization counts as achieved.
+func (s *Swarm) trackConvergence() {
+	target := s.goalState.Coherence
+	s.convergence = monitoring.NewConvergence(s.goalState, target-s.goalDirectedSync.coherenceTolerance(target))
+}
+
 // createDefaultAgents creates agents with config-based settings for standard storage.
 func (s *Swarm) createDefaultAgents() error {
 	agentConfig := config.AgentFromSwarm(s.config)
-- 
2.43.0


From 208d30b686495d57e0f2c598a5fbc49a57a99b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:27 +0000
Subject: [PATCH 16/53] fix: large-swarm agents ignored the configured initial
 energy

---
 emerge/agent/agent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index ce553ed..8343709 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -143,6 +143,10 @@ func NewOptimizedFromConfig(id string, cfg config.Agent) (*Agent, error) {
 	// Add resource manager based on type
 	if cfg.ResourceManagerType == "token" && cfg.MaxTokens > 0 {
 		opts = append(opts, WithResourceManager(resource.NewTokenManager(cfg.MaxTokens)))
+		// The resource manager sets the energy, so the initial energy comes after it
+		if cfg.InitialEnergy > 0 {
+			opts = append(opts, WithEnergy(cfg.InitialEnergy))
+		}
 	}
 
 	// Add strategy based on type
-- 
2.43.0


From d399ee6caaa009cde6750cb6c1ab46921880898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:17 +0000
Subject: [PATCH 17/53] fix: convergence statistics could deadlock with a
 concurrent recording

---
 emerge/monitoring/convergence.go | 28 ++++++++++++++++++++++------
 internal/emerge/convergence.go   | 28 ++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 814b669..88fa5e7 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers that hold the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 19d370a..8dec7d3 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers that hold the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
-- 
2.43.0


From cbfc2283d96cc8d046169df93fff370e1a01eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:21 +0000
Subject: [PATCH 18/53] fix: predicted convergence time was negative for very
 slow convergence

---
 emerge/monitoring/convergence.go | 8 ++++++--
 internal/emerge/convergence.go   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 88fa5e7..f66a59f 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -139,7 +139,7 @@ func (m *ConvergenceMonitor) convergenceRate() float64 {
 }
 
 // Stability returns how stable the convergence is.
-// Lower values indicate more stable convergence.
+// Higher values indicate more stable convergence (1 = stable, 0 = unstable).
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
@@ -214,7 +214,11 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // Too slow to express
+	}
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 8dec7d3..af3563b 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -139,7 +139,7 @@ func (m *ConvergenceMonitor) convergenceRate() float64 {
 }
 
 // Stability returns how stable the convergence is.
-// Lower values indicate more stable convergence.
+// Higher values indicate more stable convergence (1 = stable, 0 = unstable).
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
@@ -214,7 +214,11 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // Too slow to express
+	}
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
-- 
2.43.0


From f9b5135cf8af676082e091424665e529fca8da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:55 +0000
Subject: [PATCH 19/53] fix: gap detection crashed when a pattern has fewer
 frequencies than phases

---
 emerge/monitoring/patterns.go | 5 ++++-
 internal/emerge/pattern.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index d0b8c15..9ecf1ac 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -53,7 +53,10 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			// The frequency may not be known at every time point
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index 2ccc5ae..dd1c726 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -54,7 +54,10 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			// The frequency may not be known at every time point
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
-- 
2.43.0


From 4cfe3d30f836e5dacb1f878323de3baca35b0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 20/53] fix: setting the convergence target raced with
 recording

---
 emerge/convergence/monitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emerge/convergence/monitor.go b/emerge/convergence/monitor.go
index 7a6d49b..a9cef73 100644
--- a/emerge/convergence/monitor.go
+++ b/emerge/convergence/monitor.go
@@ -42,6 +42,8 @@ func NewMonitor(windowSize int) *Monitor {
 
 // SetTarget sets the target coordination state to converge toward.
 func (m *Monitor) SetTarget(target *core.TargetPattern) {
+	m.historyMu.Lock()
+	defer m.historyMu.Unlock()
 	m.target = target
 }
 
-- 
2.43.0


From c9f3c285554ffd3820226da549fcada61d491487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:19 +0000
Subject: [PATCH 21/53] fix: convergence progress was lost when the bounded
 history slid

---
 emerge/convergence/monitor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emerge/convergence/monitor.go b/emerge/convergence/monitor.go
index a9cef73..57588e6 100644
--- a/emerge/convergence/monitor.go
+++ b/emerge/convergence/monitor.go
@@ -14,6 +14,7 @@ import (
 type Monitor struct {
 	history    []Sample
 	historyMu  sync.RWMutex
+	initial    float64 // Distance of the first sample (history is bounded)
 	windowSize int
 	target     *core.TargetPattern
 	converging atomic.Bool
@@ -79,6 +80,9 @@ func (m *Monitor) RecordSample(current *core.TargetPattern, coherence float64) {
 		Acceleration: acceleration,
 	}
 
+	if len(m.history) == 0 {
+		m.initial = distance
+	}
 	m.history = append(m.history, sample)
 
 	// Keep history bounded
@@ -110,11 +114,7 @@ func (m *Monitor) GetProgress() float64 {
 	}
 
 	// Get initial and current distance
-	initialDistance := 1.0 // Assume max distance initially
-	if len(m.history) > 0 {
-		initialDistance = m.history[0].Distance
-	}
-
+	initialDistance := m.initial
 	currentDistance := m.history[len(m.history)-1].Distance
 
 	// Calculate progress
-- 
2.43.0


From b24a0f2e06b7274eb704cac40ed1522a8ab2aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:11 +0000
Subject: [PATCH 22/53] fix: every swarm above 100 agents leaked idle worker
 goroutines

---
 emerge/swarm/swarm.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index b2f85a6..d97e460 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -654,22 +654,17 @@ type WorkerPool struct {
 	workers   int
 	workQueue chan func()
 	quit      chan struct{}
+	start     sync.Once
 }
 
-// NewWorkerPool creates a new worker pool.
+// NewWorkerPool creates a new worker pool. Its workers start with the first task,
+// so a pool that is never used holds no goroutines.
 func NewWorkerPool(workers int) *WorkerPool {
-	wp := &WorkerPool{
+	return &WorkerPool{
 		workers:   workers,
 		workQueue: make(chan func(), workers*2),
 		quit:      make(chan struct{}),
 	}
-
-	// Start workers
-	for range workers {
-		go wp.worker()
-	}
-
-	return wp
 }
 
 // worker processes tasks from the queue.
@@ -686,6 +681,11 @@ func (wp *WorkerPool) worker() {
 
 // Submit adds work to the queue.
 func (wp *WorkerPool) Submit(work func()) {
+	wp.start.Do(func() {
+		for range wp.workers {
+			go wp.worker()
+		}
+	})
 	wp.workQueue <- work
 }
 
-- 
2.43.0


From 7a6e3a5b717a9a04b0b57f97eaa07fb2da51c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 23/53] fix: a nil goal configuration crashed swarm
 construction

---
 emerge/swarm/swarm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index d97e460..21adc5f 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -2,6 +2,7 @@ package swarm
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"runtime"
 	"sync"
@@ -282,6 +283,9 @@ func WithConfig(cfg config.Swarm) Option {
 // WithGoalConfig sets a custom configuration for goal-directed synchronization.
 func WithGoalConfig(cfg *Config) Option {
 	return func(s *Swarm) error {
+		if cfg == nil {
+			return errors.New("goal config must not be nil")
+		}
 		if err := cfg.Validate(); err != nil {
 			return fmt.Errorf("goal config validation failed: %w", err)
 		}
-- 
2.43.0


From 7c0d5ae667c987997e14a228e4779203ee3343b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:12 +0000
Subject: [PATCH 24/53] fix: minimum swarm size was too small for targets
 between 0.98 and 0.99

---
 emerge/swarm/limits.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/swarm/limits.go b/emerge/swarm/limits.go
index da415c7..ec48f57 100644
--- a/emerge/swarm/limits.go
+++ b/emerge/swarm/limits.go
@@ -81,7 +81,7 @@ func GetCoherenceLimits(swarmSize int) CoherenceLimits {
 func GetMinimumSwarmSize(targetCoherence float64) int {
 	// Based on empirical observations and Kuramoto model theory
 	switch {
-	case targetCoherence >= 0.99:
+	case targetCoherence > 0.98:
 		return 100 // Need large swarm for very high coherence
 	case targetCoherence >= 0.97:
 		return 50
-- 
2.43.0


From 87bf1f5f8681c8c783c6de4d981648d92f24f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 25/53] fix: tuning for throughput or resilience could make a
 goal configuration invalid

---
 emerge/swarm/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e559add..045ce56 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -416,7 +416,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 
 	case trait.Throughput:
 		// Optimize for maximum processing
-		c.Convergence.BaseAdjustmentScale *= 1.2
+		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
 		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
@@ -425,8 +425,8 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 		c.Variation.BaseRange[0] *= 1.3
 		c.Variation.BaseRange[1] *= 1.4
 		c.Resonance.NoiseMagnitude *= 1.5
-		c.Resonance.AffectedAgents *= 1.5
-		c.Resonance.ActivationRate *= 1.8
+		c.Resonance.AffectedAgents = minValue(1.0, c.Resonance.AffectedAgents*1.5)
+		c.Resonance.ActivationRate = minValue(1.0, c.Resonance.ActivationRate*1.8)
 
 	case trait.Precision:
 		// Tighten tolerances for accuracy
-- 
2.43.0


From d21b5cfe18614b94436109f6d4b9d23021d4f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:45 +0000
Subject: [PATCH 26/53] fix: sizing truncated a sub-millisecond update interval
 to zero

---
 emerge/swarm/config.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index 045ce56..3cb660a 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -458,7 +458,7 @@ func (c *Config) WithSize(agentCount int) *Config {
 		c.Convergence.ToleranceLarge = 0.015
 		c.Variation.BaseRange[0] *= 0.8
 		c.Variation.BaseRange[1] *= 0.9
-		c.Strategy.UpdateInterval = time.Duration(minValue(50, int(c.Strategy.UpdateInterval/time.Millisecond))) * time.Millisecond
+		c.Strategy.UpdateInterval = min(50*time.Millisecond, c.Strategy.UpdateInterval)
 
 	case agentCount <= 200:
 		// Medium swarms use default tolerances
@@ -471,7 +471,7 @@ func (c *Config) WithSize(agentCount int) *Config {
 		c.Convergence.ToleranceLarge *= 1.2
 		c.Variation.BaseRange[0] *= 1.2
 		c.Variation.BaseRange[1] *= 1.3
-		c.Strategy.UpdateInterval = time.Duration(maxValue(150, int(c.Strategy.UpdateInterval/time.Millisecond))) * time.Millisecond
+		c.Strategy.UpdateInterval = max(150*time.Millisecond, c.Strategy.UpdateInterval)
 		c.Strategy.MaxIterationsFactor *= 1.5
 
 	default:
@@ -481,7 +481,7 @@ func (c *Config) WithSize(agentCount int) *Config {
 		c.Convergence.ToleranceLarge *= 1.5
 		c.Variation.BaseRange[0] *= 1.5
 		c.Variation.BaseRange[1] *= 1.8
-		c.Strategy.UpdateInterval = time.Duration(maxValue(200, int(c.Strategy.UpdateInterval/time.Millisecond))) * time.Millisecond
+		c.Strategy.UpdateInterval = max(200*time.Millisecond, c.Strategy.UpdateInterval)
 		c.Strategy.MaxIterationsFactor *= 2.0
 		c.Resonance.AffectedAgents = minValue(0.05, c.Resonance.AffectedAgents)
 	}
@@ -608,11 +608,3 @@ func minValue[T ~int | ~float64](a, b T) T {
 	}
 	return b
 }
-
-// maxValue returns the maximum of two values.
-func maxValue[T ~int | ~float64](a, b T) T {
-	if a > b {
-		return a
-	}
-	return b
-}
-- 
2.43.0


From 36f3603d523d2269092d836314382d54e2c8ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 27/53] fix: settings that are not a number passed swarm
 configuration validation

---
 internal/config/swarm.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/config/swarm.go b/internal/config/swarm.go
index e347287..65483eb 100644
--- a/internal/config/swarm.go
+++ b/internal/config/swarm.go
@@ -296,7 +296,7 @@ func (c *Swarm) validateProbabilities(errors *ValidationErrors) {
 	}
 
 	for field, value := range probabilities {
-		if value < 0 || value > 1 {
+		if !(value >= 0 && value <= 1) {
 			*errors = append(*errors, ValidationError{
 				Field: field, Value: value, Message: "must be between 0 and 1",
 			})
@@ -356,7 +356,7 @@ func (c *Swarm) validatePositiveParameters(errors *ValidationErrors) {
 	for field, value := range positiveParams {
 		switch v := value.(type) {
 		case float64:
-			if v <= 0 {
+			if !(v > 0) {
 				*errors = append(*errors, ValidationError{
 					Field: field, Value: v, Message: "must be positive",
 				})
@@ -457,10 +457,10 @@ func (c *Swarm) normalizeNeighborConstraints(swarmSize int) {
 
 // normalizePositiveDefaults sets default values for parameters that must be positive
 func (c *Swarm) normalizePositiveDefaults() {
-	if c.InitialEnergy <= 0 {
+	if !(c.InitialEnergy > 0) {
 		c.InitialEnergy = 100.0
 	}
-	if c.BasinWidth <= 0 {
+	if !(c.BasinWidth > 0) {
 		c.BasinWidth = math.Pi
 	}
 	if c.AgentUpdateInterval <= 0 {
@@ -498,8 +498,9 @@ func (c *Swarm) autoCalculateBatchParameters(swarmSize int) {
 }
 
 // clampProbability returns value clamped between 0 and 1.
+// A value that is not a number counts as 0.
 func clampProbability(value float64) float64 {
-	if value < 0 {
+	if !(value >= 0) {
 		return 0
 	}
 	if value > 1 {
-- 
2.43.0


From 7a0f13c2d09f63dcbf986c0613028920feb0d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 28/53] fix: batch collection busy-waited for the whole window

---
 simulations/emerge/simulation/batch_manager.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 6656e82..9bc7003 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -95,7 +95,7 @@ func (bm *BatchManager) collectSynchronizedBatches(initial AgentBatch) []Task {
 	timer := time.NewTimer(BatchWindow)
 	defer timer.Stop()
 
-	for {
+	for len(collected) < MaxBatchSize {
 		select {
 		case <-timer.C:
 			// Window closed
@@ -103,14 +103,11 @@ func (bm *BatchManager) collectSynchronizedBatches(initial AgentBatch) []Task {
 		case additional := <-bm.queue:
 			// Add to collected batch
 			collected = append(collected, additional.Tasks...)
-		default:
-			// No more batches immediately available
-			if len(collected) >= MaxBatchSize {
-				// Batch is full
-				return collected
-			}
 		}
 	}
+
+	// Batch is full
+	return collected
 }
 
 // processCollectedBatch processes a collected batch
-- 
2.43.0


From 73e953fe9dcba8f4c06d4e57c53b33bbee364a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 29/53] fix: the simulation stopped synchronizing once and
 never recovered from a disruption

---
 simulations/emerge/simulation/simulation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index e53555c..590ef97 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -66,7 +66,7 @@ func (s *Simulation) Start(ctx context.Context) error {
 
 	// Start swarm synchronization
 	go func() {
-		if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
+		if err := s.emergeClient.Swarm().RunContinuous(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
 			// Log error but don't crash
 			_ = err
 		}
@@ -297,7 +297,7 @@ func (s *Simulation) Resume() {
 	if s.parentCtx != nil {
 		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
 		go func() {
-			if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
+			if err := s.emergeClient.Swarm().RunContinuous(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
 				// Log error but don't crash
 				_ = err
 			}
-- 
2.43.0


From 7d45b96c316c775b99276553b04c9ad54d2cc7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 30/53] fix: resuming a running simulation started a second
 synchronization that pause could not stop

---
 simulations/emerge/simulation/simulation.go | 35 ++++++++++++---------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 590ef97..0bbfa03 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -62,16 +62,11 @@ func (s *Simulation) Start(ctx context.Context) error {
 	s.parentCtx = ctx
 	// Create swarm context that we can cancel on pause
 	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
+	if !s.paused {
+		s.runSwarm(s.swarmCtx)
+	}
 	s.mu.Unlock()
 
-	// Start swarm synchronization
-	go func() {
-		if err := s.emergeClient.Swarm().RunContinuous(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-			// Log error but don't crash
-			_ = err
-		}
-	}()
-
 	// Start agents
 	for _, workload := range s.workloads {
 		workload.Start(ctx, s.batch)
@@ -275,6 +270,9 @@ func (s *Simulation) Disrupt() {
 func (s *Simulation) Pause() {
 	s.mu.Lock()
 	defer s.mu.Unlock()
+	if s.paused {
+		return
+	}
 	s.paused = true
 	// Cache the current coherence and phases so everything freezes
 	s.pausedCoherence = s.emergeClient.Swarm().MeasureCoherence()
@@ -292,19 +290,28 @@ func (s *Simulation) Pause() {
 func (s *Simulation) Resume() {
 	s.mu.Lock()
 	defer s.mu.Unlock()
+	if !s.paused {
+		return
+	}
 	s.paused = false
+
 	// Restart swarm with a new context
 	if s.parentCtx != nil {
 		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
-		go func() {
-			if err := s.emergeClient.Swarm().RunContinuous(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-				// Log error but don't crash
-				_ = err
-			}
-		}()
+		s.runSwarm(s.swarmCtx)
 	}
 }
 
+// runSwarm keeps the swarm synchronized in the background until ctx ends
+func (s *Simulation) runSwarm(ctx context.Context) {
+	go func() {
+		if err := s.emergeClient.Swarm().RunContinuous(ctx); err != nil && !errors.Is(err, context.Canceled) {
+			// Log error but don't crash
+			_ = err
+		}
+	}()
+}
+
 // Snapshot returns current state
 func (s *Simulation) Snapshot() Snapshot {
 	s.mu.RLock()
-- 
2.43.0


From 41e461190b5bd8018a09aa54ac9a12b67faf1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 31/53] fix: the final statistics never contained the peak
 coherence and convergence time

---
 simulations/emerge/simulation/simulation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 0bbfa03..9887e0c 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -341,6 +341,7 @@ func (s *Simulation) Snapshot() Snapshot {
 		coherence = s.pausedCoherence
 	} else {
 		coherence = s.emergeClient.Swarm().MeasureCoherence()
+		s.metrics.UpdateCoherence(coherence)
 	}
 
 	// Get current batch size from queue depth
@@ -374,6 +375,8 @@ func (s *Simulation) Snapshot() Snapshot {
 
 // Statistics returns final statistics
 func (s *Simulation) Statistics() Statistics {
+	coherence := s.emergeClient.Swarm().MeasureCoherence()
+	s.metrics.UpdateCoherence(coherence)
 	metrics := s.metrics.Final()
 
 	return Statistics{
@@ -384,7 +387,7 @@ func (s *Simulation) Statistics() Statistics {
 		CostWithSync:     metrics.CostWithSync,
 		TotalSavings:     metrics.TotalSavings,
 		SavingsPercent:   metrics.SavingsPercent,
-		FinalCoherence:   s.emergeClient.Swarm().MeasureCoherence(),
+		FinalCoherence:   coherence,
 		PeakCoherence:    metrics.PeakCoherence,
 		TimeToConverge:   metrics.TimeToConverge,
 	}
-- 
2.43.0


From 6394592c1ad9e78b373ea8cb0588d7e02a87bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 32/53] fix: a workload generated tasks in a race with reset
 and snapshots

---
 simulations/emerge/simulation/agent.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index efe48a9..ae36a0f 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -309,20 +309,22 @@ func (w *Workload) generateTasks(ctx context.Context) {
 			}
 
 			// Pattern-specific task generation logic
+			w.mu.Lock()
 			shouldGenerate := w.shouldGenerateTask()
+			w.mu.Unlock()
 			if !shouldGenerate {
 				continue
 			}
 
 			// Generate multiple tasks for burst/high-frequency patterns
+			w.mu.Lock()
 			numTasks := w.getTaskBatchSize()
 			for range numTasks {
 				task := w.createTask()
-				w.mu.Lock()
 				w.pendingTasks = append(w.pendingTasks, task)
 				w.tasksGenerated++
-				w.mu.Unlock()
 			}
+			w.mu.Unlock()
 
 			// Update interval for mixed pattern
 			if w.pattern == pattern.Mixed {
-- 
2.43.0


From 5d8eb32752ca2dab573c5aaf92bdc3de79023f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 33/53] fix: workloads with the mixed pattern always appeared
 quiet

---
 simulations/emerge/simulation/agent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index ae36a0f..0182124 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -324,6 +324,7 @@ func (w *Workload) generateTasks(ctx context.Context) {
 				w.pendingTasks = append(w.pendingTasks, task)
 				w.tasksGenerated++
 			}
+			w.lastRequestTime = time.Now()
 			w.mu.Unlock()
 
 			// Update interval for mixed pattern
-- 
2.43.0


From 4fd799c697316cc391aeb0a7605db881485beee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:14 +0000
Subject: [PATCH 34/53] fix: tasks were lost when many workloads sent their
 batches at once

---
 simulations/emerge/simulation/agent.go         | 10 +++++-----
 simulations/emerge/simulation/batch_manager.go |  9 ++++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index 0182124..9e2a56e 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -573,16 +573,16 @@ func (w *Workload) sendBatch() {
 	batch := make([]Task, len(w.pendingTasks))
 	copy(batch, w.pendingTasks)
 
+	// Send to batch manager; keep the tasks when it cannot take them now
+	if w.batchManager != nil && !w.batchManager.SubmitBatch(w.id, batch) {
+		return
+	}
+
 	// Clear pending
 	w.pendingTasks = w.pendingTasks[:0]
 
 	// Update metrics
 	w.batchesSent++
-
-	// Send to batch manager
-	if w.batchManager != nil {
-		w.batchManager.SubmitBatch(w.id, batch)
-	}
 }
 
 // Reset resets the workload counters
diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 9bc7003..e2dd8a1 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -54,8 +54,9 @@ func NewBatchManager() *BatchManager {
 	}
 }
 
-// SubmitBatch submits a batch from an agent
-func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) {
+// SubmitBatch submits a batch from an agent.
+// It returns false, without taking the batch, if the queue is full.
+func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) bool {
 	batch := AgentBatch{
 		AgentID:   agentID,
 		Tasks:     tasks,
@@ -65,8 +66,10 @@ func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) {
 	select {
 	case bm.queue <- batch:
 		// Batch queued
+		return true
 	default:
-		// Queue full, drop batch (shouldn't happen in normal operation)
+		// Queue full, the agent keeps its tasks and tries again
+		return false
 	}
 }
 
-- 
2.43.0


From c3b9adfe046be516662cb0751dd29c3f7452fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:14 +0000
Subject: [PATCH 35/53] fix: resetting the batch manager could wait for ever
 for a batch that was already processed

---
 simulations/emerge/simulation/batch_manager.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index e2dd8a1..fed4795 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -181,8 +181,12 @@ func (bm *BatchManager) Reset() {
 	bm.lastBatchSize = 0
 
 	// Clear queue
-	for len(bm.queue) > 0 {
-		<-bm.queue
+	for drained := false; !drained; {
+		select {
+		case <-bm.queue:
+		default:
+			drained = true
+		}
 	}
 
 	bm.currentMu.Lock()
-- 
2.43.0


From 0725e2283efe40c112085fedf6d22f048033f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 36/53] fix: a simulation that was not started yet reported
 centuries of elapsed time

---
 simulations/emerge/simulation/simulation.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 9887e0c..5628d17 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -351,9 +351,14 @@ func (s *Simulation) Snapshot() Snapshot {
 	lastBatchTime, lastBatchSize := s.batch.LastBatchInfo()
 	batchJustSent := time.Since(lastBatchTime) < 500*time.Millisecond // Show pulse for 500ms
 
+	var elapsed time.Duration
+	if !s.startTime.IsZero() {
+		elapsed = time.Since(s.startTime)
+	}
+
 	return Snapshot{
 		Timestamp:        time.Now(),
-		ElapsedTime:      time.Since(s.startTime),
+		ElapsedTime:      elapsed,
 		Agents:           agentSnapshots,
 		Coherence:        coherence,
 		TargetCoherence:  s.config.TargetCoherence,
-- 
2.43.0


From a70e818ab6276c4d3ae1895e48533a656b6d9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 37/53] fix: the automatic request pattern was never selected,
 workloads ran without one

---
 simulations/emerge/simulation/builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulations/emerge/simulation/builder.go b/simulations/emerge/simulation/builder.go
index 3976e38..be2a9b4 100644
--- a/simulations/emerge/simulation/builder.go
+++ b/simulations/emerge/simulation/builder.go
@@ -22,6 +22,11 @@ type BuildConfig struct {
 // New creates a simulation from a configuration.
 // This is the main entry point for creating simulations.
 func New(config BuildConfig) (*Simulation, error) {
+	// Auto-select the request pattern when none is set
+	if config.Pattern == pattern.Unset {
+		config.Pattern = pattern.BestPatternForGoal(int(config.Goal))
+	}
+
 	// Create emerge client based on configuration
 	emergeClient, err := createEmergeClient(config)
 	if err != nil {
-- 
2.43.0


From 41eaa06cd8b5debfa99f9879adb3a9208960a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 38/53] fix: the coherence modifier fell below its documented
 minimum of 0.5

---
 simulations/emerge/simulation/pattern/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulations/emerge/simulation/pattern/pattern.go b/simulations/emerge/simulation/pattern/pattern.go
index bd69cdc..2438dce 100644
--- a/simulations/emerge/simulation/pattern/pattern.go
+++ b/simulations/emerge/simulation/pattern/pattern.go
@@ -216,6 +216,9 @@ func GetCoherenceModifier(goalType int, agentCount int, p Type) float64 {
 	if agentCount <= 50 && p == Sparse {
 		modifier *= 0.8 // Not enough activity for small swarms
 	}
+	if modifier < 0.5 {
+		modifier = 0.5 // Documented minimum
+	}
 
 	return modifier
 }
-- 
2.43.0


From c375ef4e616f0bbf405a3d235010713904a48fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:36 +0000
Subject: [PATCH 39/53] fix: the pull of an attractor basin doubled, and
 overshot its target, for negative phases

---
 internal/emerge/basin.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/internal/emerge/basin.go b/internal/emerge/basin.go
index e287cc3..6ed1cc5 100644
--- a/internal/emerge/basin.go
+++ b/internal/emerge/basin.go
@@ -58,13 +58,6 @@ func (b *AttractorBasin) AttractionForce(state core.State) float64 {
 	// Stronger force when closer to center
 	normalizedDist := distance / b.radius
 
-	// Special handling for negative phase to positive target transitions
-	// This may be needed to match expected test behavior
-	if state.Phase < 0 && b.target.Phase > 0 {
-		// Boost the force for cross-zero transitions to encourage convergence
-		return b.strength * (1 - normalizedDist) * 2.0
-	}
-
 	return b.strength * (1 - normalizedDist)
 }
 
-- 
2.43.0


From 70bfc60a698ab9f0196560e0e640471a82e6fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 40/53] fix: the pull at the centre of an attractor basin of
 radius zero was not a number

---
 internal/emerge/basin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/emerge/basin.go b/internal/emerge/basin.go
index 6ed1cc5..a079777 100644
--- a/internal/emerge/basin.go
+++ b/internal/emerge/basin.go
@@ -56,7 +56,10 @@ func (b *AttractorBasin) AttractionForce(state core.State) float64 {
 	}
 
 	// Stronger force when closer to center
-	normalizedDist := distance / b.radius
+	normalizedDist := 0.0
+	if b.radius > 0 {
+		normalizedDist = distance / b.radius
+	}
 
 	return b.strength * (1 - normalizedDist)
 }
-- 
2.43.0


From 29c507989fe738b7013880a910126a7fa42550c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:12 +0000
Subject: [PATCH 41/53] fix: a quick pause and resume ran two synchronizations
 at once, in a race

---
 emerge/swarm/swarm_continuous_run.go        | 4 ++++
 simulations/emerge/simulation/simulation.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index 0037089..b0f97b1 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -211,6 +211,10 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 	for {
 		select {
 		case <-ctx.Done():
+			// Leave nothing behind that still adjusts the swarm
+			if state.syncActive {
+				<-syncDone
+			}
 			return ctx.Err()
 
 		case <-syncDone:
diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 5628d17..879e64a 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -52,6 +52,7 @@ type Simulation struct {
 	parentCtx       context.Context // Parent context from Start
 	swarmCtx        context.Context
 	swarmCancel     context.CancelFunc
+	swarmDone       chan struct{} // closed when the last started synchronization has ended
 }
 
 // Start begins the simulation
@@ -304,7 +305,13 @@ func (s *Simulation) Resume() {
 
 // runSwarm keeps the swarm synchronized in the background until ctx ends
 func (s *Simulation) runSwarm(ctx context.Context) {
+	previous, done := s.swarmDone, make(chan struct{})
+	s.swarmDone = done
 	go func() {
+		defer close(done)
+		if previous != nil {
+			<-previous // Two synchronizations must not adjust the swarm at once
+		}
 		if err := s.emergeClient.Swarm().RunContinuous(ctx); err != nil && !errors.Is(err, context.Canceled) {
 			// Log error but don't crash
 			_ = err
-- 
2.43.0


From 54140eff0fb175955c5a105d4dffc9c70571ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 42/53] fix: the keyboard shortcut of the rhythm goal was the
 one that resets the simulation

---
 emerge/goal/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/goal/config.go b/emerge/goal/config.go
index a5a9789..ff9d62f 100644
--- a/emerge/goal/config.go
+++ b/emerge/goal/config.go
@@ -79,7 +79,7 @@ func (g Type) ShortKey() string {
 	case SaveEnergy:
 		return "E" // Energy
 	case MaintainRhythm:
-		return "R" // Rhythm
+		return "M" // rhythM (avoid conflict with R for Reset)
 	case RecoverFromFailure:
 		return "F" // Failure
 	case AdaptToTraffic:
-- 
2.43.0


From f3dea5e00faae509884ef31f1663a64ce0f9389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:01 +0000
Subject: [PATCH 43/53] fix: complete patterns towards the target when the
 template leads elsewhere

---
 emerge/completion/engine.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/emerge/completion/engine.go b/emerge/completion/engine.go
index a416097..6784c44 100644
--- a/emerge/completion/engine.go
+++ b/emerge/completion/engine.go
@@ -39,16 +39,25 @@ func (e *Engine) CompletePattern(current *core.TargetPattern, gaps []core.Patter
 		return e.interpolatePattern(current, gaps)
 	}
 
-	// Use template to fill gaps
+	// Use template to fill gaps, unless it does not lead most of the way to the
+	// target: then aim for the target itself
 	for _, gap := range gaps {
 		switch gap.Type {
 		case "phase":
 			// Gradually adjust phase toward template
-			completed.Filled["phase"] = e.blendPhase(current.Phase, template.Phase, gap.Severity)
+			goal := template.Phase
+			if math.Abs(core.PhaseDifference(goal, gap.Target)) > math.Abs(core.PhaseDifference(gap.Current, gap.Target))/2 {
+				goal = gap.Target
+			}
+			completed.Filled["phase"] = e.blendPhase(current.Phase, goal, gap.Severity)
 
 		case "frequency":
 			// Blend frequency toward template
-			completed.Filled["frequency"] = e.blendFrequency(current.Frequency, template.Frequency, gap.Severity)
+			goal := template.Frequency
+			if math.Abs(float64(goal)-gap.Target) > math.Abs(gap.Current-gap.Target)/2 {
+				goal = time.Duration(gap.Target)
+			}
+			completed.Filled["frequency"] = e.blendFrequency(current.Frequency, goal, gap.Severity)
 
 		case "coherence":
 			// Use template's coherence strategy
-- 
2.43.0


From 7eea6f22c420b1f71575b43d27cd9065ed451e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 44/53] fix: the dashboard took agents just behind the beat for
 far ahead of it
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Agents report phases in [0, 2π); the panels read them as if in [-π, π), so an
agent slightly behind the beat counted as late, failed or far off, and a swarm
spread evenly over the circle was shown with all load on two of four servers.
---
 simulations/display/display.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index 8dad981..f669610 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -1091,7 +1091,8 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 		case goal.ReachConsensus:
 			// Wants CLUSTERS (voting blocs)
 			// Green when in a cluster with others
-			clustered := math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2) < 0.5 || math.Abs(a.Phase-4) < 0.5
+			clustered := math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2*math.Pi) < 0.5 ||
+				math.Abs(a.Phase-2) < 0.5 || math.Abs(a.Phase-4) < 0.5
 			switch {
 			case clustered:
 				syncIndicator = syncGreen // GOOD - in a voting bloc
@@ -1108,7 +1109,7 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 			case math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2*math.Pi) < 0.5:
 				syncIndicator = syncGreen // GOOD - synchronized
 				phaseColor = cell.ColorGreen
-			case math.Abs(a.Phase) < 1.0:
+			case math.Abs(a.Phase) < 1.0 || math.Abs(a.Phase-2*math.Pi) < 1.0:
 				syncIndicator = syncYellow // Almost there
 				phaseColor = cell.ColorYellow
 			default:
@@ -1806,6 +1807,13 @@ func (d *TerminalDisplay) updateCoherenceChart(coherence, targetCoherence float6
 	}
 }
 
+// signedPhase returns how far a phase is ahead of the beat, or behind it if
+// negative. Agents report phases in [0, 2π), so one just before the full turn is
+// slightly behind rather than far ahead.
+func signedPhase(phase float64) float64 {
+	return math.Remainder(phase, 2*math.Pi)
+}
+
 // calculateMeanField computes the mean field parameters for coherence
 func calculateMeanField(agents []AgentSnapshot) (meanPhase, meanMagnitude float64) {
 	var sumSin, sumCos float64
@@ -1827,7 +1835,7 @@ func calculateMeanField(agents []AgentSnapshot) (meanPhase, meanMagnitude float6
 func getAgentColor(phase, meanPhase, meanMagnitude float64) cell.Color {
 	if meanMagnitude < 0.3 {
 		// Low coherence - color by phase group
-		phaseGroup := int((phase + math.Pi) * 3 / (2 * math.Pi))
+		phaseGroup := int((signedPhase(phase) + math.Pi) * 3 / (2 * math.Pi))
 		switch phaseGroup {
 		case 0:
 			return cell.ColorRed
@@ -1923,7 +1931,7 @@ func (d *TerminalDisplay) displayLoadDistribution(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		// Map phase to region
-		region := int((agent.Phase + math.Pi) / (2 * math.Pi) * float64(phaseRegions))
+		region := int((signedPhase(agent.Phase) + math.Pi) / (2 * math.Pi) * float64(phaseRegions))
 		if region >= phaseRegions {
 			region = phaseRegions - 1
 		}
@@ -2018,7 +2026,7 @@ func (d *TerminalDisplay) displayLatencyHistogram(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		// Phase variance affects latency
-		variance := math.Abs(agent.Phase)
+		variance := math.Abs(signedPhase(agent.Phase))
 		latency := baseLatency + variance*5
 		bin := int(latency / 10)
 		if bin >= bins {
@@ -2108,7 +2116,7 @@ func (d *TerminalDisplay) displayScheduleAlignment(snapshot SimulationSnapshot)
 	late := 0
 
 	for _, agent := range snapshot.Agents {
-		drift := agent.Phase // Phase represents timing drift
+		drift := signedPhase(agent.Phase) // Phase represents timing drift
 		switch {
 		case math.Abs(drift) < 0.1:
 			onTime++
@@ -2160,9 +2168,9 @@ func (d *TerminalDisplay) displaySystemHealth(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		switch {
-		case snapshot.Disrupted && math.Abs(agent.Phase) > 2:
+		case snapshot.Disrupted && math.Abs(signedPhase(agent.Phase)) > 2:
 			failed++
-		case math.Abs(agent.Phase) > 1:
+		case math.Abs(signedPhase(agent.Phase)) > 1:
 			degraded++
 		default:
 			healthy++
@@ -2573,7 +2581,7 @@ func (d *TerminalDisplay) updateSwarmVisualization(snapshot SimulationSnapshot)
 
 		// Ensure within bounds and not overwriting center
 		if x >= 0 && x < width && y >= 0 && y < height && (x != centerX || y != centerY) {
-			swarmGrid[y][x] = getAgentCharacter(agent.Phase)
+			swarmGrid[y][x] = getAgentCharacter(signedPhase(agent.Phase))
 		}
 	}
 
-- 
2.43.0


From 81c3a10a60f9abcb0cd795931d0eeaa4bc816f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 45/53] fix: a custom agent builder saw the configuration of
 before the later options, and a missing one or missing agent crashed

---
 emerge/swarm/swarm.go | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 21adc5f..ddc1230 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -44,6 +44,9 @@ type Swarm struct {
 	basin       *emerge.AttractorBasin
 	convergence *monitoring.ConvergenceMonitor
 
+	// Custom agent builder, called once all options are applied
+	agentBuilder func(id string, swarmSize int, cfg config.Swarm) *agent.Agent
+
 	// Custom topology, applied once all agents exist
 	topology func(*Swarm) error
 
@@ -127,7 +130,14 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		return nil, fmt.Errorf("swarm size %d exceeds configured maximum %d", size, s.config.MaxSwarmSize)
 	}
 
-	// Create agents if not already created by options
+	// Create agents with the custom builder, if there is one
+	if s.agentBuilder != nil {
+		if err := s.createCustomAgents(); err != nil {
+			return nil, fmt.Errorf("failed to create agents: %w", err)
+		}
+	}
+
+	// Create agents if not already created
 	if s.optimized {
 		// Use optimized creation for large swarms
 		if len(s.agentSlice) == 0 {
@@ -236,6 +246,23 @@ func (s *Swarm) createDefaultAgents() error {
 	return nil
 }
 
+// createCustomAgents creates agents with the custom builder.
+func (s *Swarm) createCustomAgents() error {
+	for i := range s.size {
+		a := s.agentBuilder(fmt.Sprintf("agent-%d", i), s.size, s.config)
+		if a == nil {
+			return fmt.Errorf("agent builder returned no agent %d", i)
+		}
+		if s.optimized {
+			s.agentIndex[a.ID] = len(s.agentSlice)
+			s.agentSlice = append(s.agentSlice, a)
+			continue
+		}
+		s.agents.Store(a.ID, a)
+	}
+	return nil
+}
+
 // createOptimizedAgents creates agents efficiently for large swarms.
 func (s *Swarm) createOptimizedAgents() error {
 	agentConfig := config.AgentFromSwarm(s.config)
@@ -305,15 +332,10 @@ func WithMonitor(monitor *monitoring.Monitor) Option {
 // WithAgentBuilder uses a custom function to create agents.
 func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *agent.Agent) Option {
 	return func(s *Swarm) error {
-		for i := range s.size {
-			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
-			if s.optimized {
-				s.agentIndex[a.ID] = len(s.agentSlice)
-				s.agentSlice = append(s.agentSlice, a)
-				continue
-			}
-			s.agents.Store(a.ID, a)
+		if builder == nil {
+			return errors.New("agent builder must not be nil")
 		}
+		s.agentBuilder = builder
 		return nil
 	}
 }
-- 
2.43.0


From f81535fc431d43d8cc89fb0394b8d8718acf82ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 46/53] fix: large swarms' agent constructor ignored the
 configured strategy and its rate, and accepted unknown components

---
 emerge/agent/agent.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 8343709..31f7765 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -131,18 +131,26 @@ func NewOptimizedFromConfig(id string, cfg config.Agent) (*Agent, error) {
 	}
 
 	// Add decision maker based on type
-	if cfg.DecisionMakerType == "simple" {
-		opts = append(opts, WithDecisionMaker(&decision.SimpleDecisionMaker{}))
+	decider, err := createDecisionMaker(cfg)
+	if err != nil {
+		return nil, err
 	}
+	opts = append(opts, WithDecisionMaker(decider))
 
 	// Add goal manager based on type
-	if cfg.GoalManagerType == "weighted" {
-		opts = append(opts, WithGoalManager(&goal.WeightedManager{}))
+	goals, err := createGoalManager(cfg)
+	if err != nil {
+		return nil, err
 	}
+	opts = append(opts, WithGoalManager(goals))
 
 	// Add resource manager based on type
-	if cfg.ResourceManagerType == "token" && cfg.MaxTokens > 0 {
-		opts = append(opts, WithResourceManager(resource.NewTokenManager(cfg.MaxTokens)))
+	resources, err := createResourceManager(cfg)
+	if err != nil {
+		return nil, err
+	}
+	if cfg.MaxTokens > 0 {
+		opts = append(opts, WithResourceManager(resources))
 		// The resource manager sets the energy, so the initial energy comes after it
 		if cfg.InitialEnergy > 0 {
 			opts = append(opts, WithEnergy(cfg.InitialEnergy))
@@ -150,16 +158,11 @@ func NewOptimizedFromConfig(id string, cfg config.Agent) (*Agent, error) {
 	}
 
 	// Add strategy based on type
-	switch cfg.StrategyType {
-	case strategyPhaseNudge:
-		opts = append(opts, WithStrategy(&strategy.PhaseNudge{Rate: cfg.StrategyRate}))
-	case strategyFrequencyLock:
-		opts = append(opts, WithStrategy(&strategy.FrequencyLock{SyncRate: 0.5}))
-	case "energy_aware":
-		opts = append(opts, WithStrategy(&strategy.EnergyAware{Threshold: 10}))
-	default:
-		opts = append(opts, WithStrategy(&strategy.PhaseNudge{Rate: cfg.StrategyRate}))
+	sync, err := createStrategy(cfg)
+	if err != nil {
+		return nil, err
 	}
+	opts = append(opts, WithStrategy(sync))
 
 	return New(id, opts...), nil
 }
-- 
2.43.0


From e805f35069b999c006446c72ecd43c3d806c364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:47 +0000
Subject: [PATCH 47/53] fix: two synchronizations of one swarm at once raced

---
 emerge/swarm/goal_directed.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index eee9095..3ea0385 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -26,6 +26,7 @@ type GoalDirectedSync struct {
 	strategyPerf       map[string]*StrategyPerformance
 	config             *Config // Configuration for goal-directed behavior
 	mu                 sync.RWMutex
+	running            chan struct{} // Holds a value while a synchronization is in progress
 }
 
 // StrategyPerformance tracks how well a strategy works.
@@ -58,6 +59,7 @@ func NewGoalDirectedSyncWithConfig(s *Swarm, cfg *Config) *GoalDirectedSync {
 			strategy.NewPulse(100*time.Millisecond, 0.8),
 		},
 		strategyPerf: make(map[string]*StrategyPerformance),
+		running:      make(chan struct{}, 1),
 	}
 
 	// Initialize performance tracking
@@ -77,7 +79,15 @@ func NewGoalDirectedSyncWithConfig(s *Swarm, cfg *Config) *GoalDirectedSync {
 }
 
 // AchieveSynchronization runs goal-directed synchronization loop.
+// Only one synchronization adjusts the swarm at a time; a further one waits for it.
 func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target *core.TargetPattern) error {
+	select {
+	case gds.running <- struct{}{}:
+		defer func() { <-gds.running }()
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+
 	gds.targetPattern = target
 	gds.convergenceMonitor.SetTarget(target)
 
-- 
2.43.0


From a0fcf4af55264d7818b6d8382a96c4de9c96fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 48/53] fix: the timer of an earlier reset or disruption
 cleared the flag of a later one

---
 simulations/emerge/simulation/simulation.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 879e64a..0bd3e4f 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -197,11 +197,14 @@ func (s *Simulation) Reset() {
 	s.reset = true
 	s.resetTime = time.Now()
 
-	// Clear reset flag after delay
+	// Clear reset flag after delay, unless a later reset has raised it again
+	raised := s.resetTime
 	go func() {
 		time.Sleep(2 * time.Second)
 		s.mu.Lock()
-		s.reset = false
+		if s.resetTime.Equal(raised) {
+			s.reset = false
+		}
 		s.mu.Unlock()
 	}()
 }
@@ -212,6 +215,7 @@ func (s *Simulation) Disrupt() {
 	// Mark as disrupted for visual feedback
 	s.disrupted = true
 	s.disruptTime = time.Now()
+	raised := s.disruptTime
 	s.mu.Unlock()
 
 	// Disrupt synchronization by changing some agents' phases
@@ -240,8 +244,8 @@ func (s *Simulation) Disrupt() {
 			select {
 			case <-ticker.C:
 				s.mu.RLock()
-				if !s.disrupted {
-					// Already cleared (maybe by reset or another disruption)
+				if !s.disrupted || !s.disruptTime.Equal(raised) {
+					// Already cleared, or raised again by another disruption
 					s.mu.RUnlock()
 					return
 				}
@@ -252,14 +256,18 @@ func (s *Simulation) Disrupt() {
 				if coherence >= target {
 					// Recovered above target
 					s.mu.Lock()
-					s.disrupted = false
+					if s.disruptTime.Equal(raised) {
+						s.disrupted = false
+					}
 					s.mu.Unlock()
 					return
 				}
 			case <-timeout:
 				// Safety timeout - clear disruption flag after 30 seconds
 				s.mu.Lock()
-				s.disrupted = false
+				if s.disruptTime.Equal(raised) {
+					s.disrupted = false
+				}
 				s.mu.Unlock()
 				return
 			}
-- 
2.43.0


From 1199e27a7a8ed008406b59ae2e454da55a7dc3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:00 +0000
Subject: [PATCH 49/53] fix: a signal no longer stopped the demo after a scale,
 goal or pattern switch

---
 simulations/emerge/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/simulations/emerge/main.go b/simulations/emerge/main.go
index b02ca60..e577b40 100644
--- a/simulations/emerge/main.go
+++ b/simulations/emerge/main.go
@@ -55,11 +55,12 @@ func main() {
 	config.UpdateInterval = *updateInterval
 	config.Timeout = *timeout
 
-	// Create context with cancellation
-	ctx, cancel := context.WithCancel(context.Background())
+	// Create root context, canceled by signals for graceful shutdown
+	root, stop := context.WithCancel(context.Background())
+	go handleSignals(stop)
 
-	// Handle graceful shutdown
-	go handleSignals(cancel)
+	// Create context with cancellation for the first run
+	ctx, cancel := context.WithCancel(root)
 
 	// Run simulation loop (allows scale switching)
 	for {
@@ -164,7 +165,7 @@ func main() {
 				fmt.Printf("\nSwitching to %s pattern...\n\n", newPattern.String())
 			}
 			// Create new context for restart
-			ctx, cancel = context.WithCancel(context.Background())
+			ctx, cancel = context.WithCancel(root)
 			continue
 		}
 		break
-- 
2.43.0


From 3612a700dffd6d2c14f728c3e7f572a1c6e0118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 50/53] fix: a zero or negative -interval crashed the demo

---
 simulations/emerge/ui/runner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simulations/emerge/ui/runner.go b/simulations/emerge/ui/runner.go
index 8707b67..c5f5a85 100644
--- a/simulations/emerge/ui/runner.go
+++ b/simulations/emerge/ui/runner.go
@@ -13,6 +13,9 @@ import (
 	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
 )
 
+// defaultUpdateInterval is used when no positive update interval is configured
+const defaultUpdateInterval = 100 * time.Millisecond
+
 // RunnerConfig holds runner configuration
 type RunnerConfig struct {
 	UpdateInterval time.Duration
@@ -41,6 +44,9 @@ type Runner struct {
 
 // NewRunner creates a new runner
 func NewRunner(config RunnerConfig, sim *simulation.Simulation, disp display.Display, ctrl display.Controller) *Runner {
+	if config.UpdateInterval <= 0 {
+		config.UpdateInterval = defaultUpdateInterval
+	}
 	return &Runner{
 		config:     config,
 		simulation: sim,
-- 
2.43.0


From 00e6089ccba9b32a1f96a82f4803c6e80f64a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:21 +0000
Subject: [PATCH 51/53] fix: closing the terminal display under a pending
 redraw raced and could crash

---
 simulations/display/display.go | 54 ++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index f669610..73a899a 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -6,6 +6,7 @@ package display
 import (
 	"context"
 	"fmt"
+	"image"
 	"math"
 	"os"
 	"strings"
@@ -44,7 +45,7 @@ const (
 // TerminalDisplay implements the Display interface using termdash
 type TerminalDisplay struct {
 	// Terminal components
-	terminal   *tcell.Terminal
+	terminal   terminalapi.Terminal
 	container  *container.Container
 	controller *KeyboardController
 
@@ -159,7 +160,7 @@ func (d *TerminalDisplay) Initialize() error {
 	if err != nil {
 		return fmt.Errorf("failed to create terminal: %w", err)
 	}
-	d.terminal = t
+	d.terminal = &closableTerminal{Terminal: t}
 
 	// Create widgets
 	if err := d.createWidgets(); err != nil {
@@ -550,6 +551,55 @@ func (d *TerminalDisplay) updateInstructionsWidget() {
 		text.WriteCellOpts(cell.FgColor(cell.ColorCyan)))
 }
 
+// closableTerminal can be closed while it is still being drawn on: termdash
+// redraws in the background after a key press, even when its Run has returned.
+type closableTerminal struct {
+	terminalapi.Terminal
+	mu     sync.Mutex
+	closed bool
+}
+
+// Clear implements terminalapi.Terminal.Clear
+func (t *closableTerminal) Clear(opts ...cell.Option) error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.closed {
+		return nil
+	}
+	return t.Terminal.Clear(opts...)
+}
+
+// SetCell implements terminalapi.Terminal.SetCell
+func (t *closableTerminal) SetCell(p image.Point, r rune, opts ...cell.Option) error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.closed {
+		return nil
+	}
+	return t.Terminal.SetCell(p, r, opts...)
+}
+
+// Flush implements terminalapi.Terminal.Flush
+func (t *closableTerminal) Flush() error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.closed {
+		return nil
+	}
+	return t.Terminal.Flush()
+}
+
+// Close implements terminalapi.Terminal.Close
+func (t *closableTerminal) Close() {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.closed {
+		return
+	}
+	t.closed = true
+	t.Terminal.Close()
+}
+
 // Close cleans up the display
 func (d *TerminalDisplay) Close() error {
 	if d.terminal != nil {
-- 
2.43.0


From fcd163dd6f195461ec3fba4657df10c27703a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:52 +0000
Subject: [PATCH 52/53] fix: a pulse strategy shared by goroutines raced and
 gave out extra pulses

---
 emerge/strategy/pulse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emerge/strategy/pulse.go b/emerge/strategy/pulse.go
index d452128..b00d883 100644
--- a/emerge/strategy/pulse.go
+++ b/emerge/strategy/pulse.go
@@ -2,6 +2,7 @@ package strategy
 
 import (
 	"math"
+	"sync"
 	"time"
 
 	"github.com/carlisia/bio-adapt/emerge/core"
@@ -12,6 +13,8 @@ import (
 type Pulse struct {
 	Period    time.Duration
 	Amplitude float64
+
+	mu        sync.Mutex // Guards lastPulse: agents propose concurrently
 	lastPulse time.Time
 }
 
@@ -26,6 +29,9 @@ func NewPulse(period time.Duration, amplitude float64) *Pulse {
 
 // Propose suggests a pulse action when appropriate.
 func (s *Pulse) Propose(current, target core.State, context core.Context) (core.Action, float64) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	now := time.Now()
 	timeSincePulse := now.Sub(s.lastPulse)
 
-- 
2.43.0


From c12b9baf3d4888812bf00792fc2ed93e7dd5dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 53/53] fix: a completed waveform shared memory with the
 template it came from

---
 emerge/completion/engine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emerge/completion/engine.go b/emerge/completion/engine.go
index 6784c44..c0e0a3b 100644
--- a/emerge/completion/engine.go
+++ b/emerge/completion/engine.go
@@ -3,6 +3,7 @@ package completion
 
 import (
 	"math"
+	"slices"
 	"sync"
 	"time"
 
@@ -160,10 +161,10 @@ func (*Engine) blendFrequency(current, template time.Duration, weight float64) t
 // morphWaveform morphs one waveform toward another.
 func (*Engine) morphWaveform(current, template []float64, weight float64) []float64 {
 	if len(current) == 0 {
-		return template
+		return slices.Clone(template) // The caller may write to the result
 	}
 	if len(template) == 0 {
-		return current
+		return slices.Clone(current)
 	}
 
 	// Resample if different lengths
-- 
2.43.0

