From b6000a26eacd18c3fce5cbacbd477c2d14fed0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 01/40] fix: do not lose concurrent agent state and behavior
 updates

AtomicState.Update and AtomicBehavior.Update loaded, modified and stored
without checking that the value was unchanged, so one of two concurrent
setters (or actions) was silently dropped. Retry with compare-and-swap.
---
 emerge/agent/atomic_state.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/emerge/agent/atomic_state.go b/emerge/agent/atomic_state.go
index b32601c..bd9ff91 100644
--- a/emerge/agent/atomic_state.go
+++ b/emerge/agent/atomic_state.go
@@ -47,12 +47,20 @@ func (a *AtomicState) Store(state StateData) {
 }
 
 // Update atomically updates the state.
-// For simplicity, this just loads, modifies, and stores.
-// In high contention scenarios, consider using a mutex instead.
+// The update is retried if the state changed concurrently, so fn may be
+// called more than once and must depend only on the state it is given.
 func (a *AtomicState) Update(fn func(*StateData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		cur := a.value.Load()
+		next := &StateData{}
+		if data, ok := cur.(*StateData); ok {
+			*next = *data
+		}
+		fn(next)
+		if a.value.CompareAndSwap(cur, next) {
+			return
+		}
+	}
 }
 
 // AtomicBehavior uses atomic.Value for behavioral parameters.
@@ -83,8 +91,18 @@ func (a *AtomicBehavior) Store(behavior BehaviorData) {
 }
 
 // Update atomically updates the behavior.
+// The update is retried if the behavior changed concurrently, so fn may be
+// called more than once and must depend only on the behavior it is given.
 func (a *AtomicBehavior) Update(fn func(*BehaviorData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		cur := a.value.Load()
+		next := &BehaviorData{}
+		if data, ok := cur.(*BehaviorData); ok {
+			*next = *data
+		}
+		fn(next)
+		if a.value.CompareAndSwap(cur, next) {
+			return
+		}
+	}
 }
-- 
2.43.0


From 59aee565dd48c2ccb04830c04d826bc5218f16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 02/40] fix: check an action's energy cost atomically with
 spending it

ApplyAction compared the cost with a snapshot and spent it later, so
concurrent actions could each pass the check and together spend more
energy than the agent had.
---
 emerge/agent/agent.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 74b94ab..4e8289d 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -451,19 +451,31 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 	switch action.Type {
 	case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
 		a.state.Update(func(s *StateData) {
+			state = *s
+			if success = energyCost <= s.Energy; !success {
+				return
+			}
 			s.Phase = core.WrapPhase(s.Phase + action.Value)
 			s.Energy = math.Max(0, s.Energy-energyCost)
 		})
-		success = true
 	case "maintain":
 		a.state.Update(func(s *StateData) {
+			state = *s
+			if success = energyCost <= s.Energy; !success {
+				return
+			}
 			s.Energy = math.Max(0, s.Energy-energyCost)
 		})
-		success = true
 	default:
 		return false, 0, fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
 	}
 
+	// A concurrent action may have spent the energy since the first check
+	if !success {
+		return false, 0, fmt.Errorf("%w: required %.2f, available %.2f",
+			core.ErrInsufficientEnergy, energyCost, state.Energy)
+	}
+
 	if success && a.resources != nil {
 		a.resources.Request(energyCost)
 	}
-- 
2.43.0


From 55902bf843504c70a039932742ce5884b24d1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:32 +0000
Subject: [PATCH 03/40] fix: make pooled agents usable and recycle them clean

Pool.Get panicked on every newly created agent because its state holders
were never allocated; a recycled agent kept the neighbors of its previous
life in the optimized storage, and was counted as new.
---
 emerge/agent/pool.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 0aef185..d1f83e9 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -7,7 +7,10 @@ import (
 
 	"github.com/carlisia/bio-adapt/emerge/core"
 	"github.com/carlisia/bio-adapt/emerge/decision"
+	"github.com/carlisia/bio-adapt/emerge/goal"
+	"github.com/carlisia/bio-adapt/emerge/strategy"
 	"github.com/carlisia/bio-adapt/internal/random"
+	"github.com/carlisia/bio-adapt/internal/resource"
 )
 
 // Pool manages a pool of reusable Agent objects to reduce allocations.
@@ -49,7 +52,7 @@ func (p *PoolManager) Get(id string) *Agent {
 	}
 
 	// Check if this is a newly created agent
-	if a.ID == "" {
+	if a.state == nil {
 		p.stats.news.Add(1)
 	}
 
@@ -84,6 +87,17 @@ func (p *PoolManager) Stats() (gets, puts, news uint64, inUse int64) {
 func (a *Agent) Reset(id string) {
 	a.ID = id
 
+	// Allocate the structures a newly pooled agent does not have yet
+	if a.state == nil {
+		a.state = NewAtomicState()
+		a.behavior = NewAtomicBehavior()
+		a.optimizedNeighbors = NewNeighborStorage(20)
+		a.useOptimizedNeighbors = true
+		a.goalManager = &goal.WeightedManager{}
+		a.resources = resource.NewTokenManager(100)
+		a.strategy = &strategy.PhaseNudge{Rate: 0.3}
+	}
+
 	// Reset atomic values to defaults
 	a.state.Store(StateData{
 		Phase:     random.Phase(),
@@ -101,6 +115,9 @@ func (a *Agent) Reset(id string) {
 		a.neighbors.Delete(key)
 		return true
 	})
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 
 	// Reset context
 	a.context.Store(core.Context{})
@@ -120,6 +137,9 @@ func (a *Agent) Clear() {
 		a.neighbors.Delete(key)
 		return true
 	})
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 
 	// Don't nil out structures, just clear them
 	a.context.Store(core.Context{})
-- 
2.43.0


From 43de11e8154dcc3ac302b0bc05ff0d88cfe88860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 04/40] fix: keep neighbor density meaningful when the swarm
 size is unknown

An agent created without swarm info perceived a negative density (n / -1),
and one in a swarm of one an infinite density.
---
 emerge/agent/agent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 4e8289d..03d73c3 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -369,6 +369,9 @@ func (a *Agent) UpdateContext() {
 	if maxNeighbors == 0 {
 		maxNeighbors = a.swarmSize - 1
 	}
+	if maxNeighbors <= 0 {
+		maxNeighbors = neighborCount // swarm size unknown
+	}
 	density := float64(neighborCount) / float64(maxNeighbors)
 
 	// Store context
-- 
2.43.0


From 465d4e0343c87c90c98d31475714d8c77202d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:39 +0000
Subject: [PATCH 05/40] fix: give an agent one consistent view of its
 connections

Connections made through the neighbors map (as the swarm does) were invisible
to sensing, and connections beyond the optimized storage's capacity were
silently dropped.
---
 emerge/agent/agent.go | 72 +++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 43 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 03d73c3..6a2d09b 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -249,23 +249,30 @@ func (a *Agent) SetDecisionMaker(dm core.DecisionMaker) {
 
 // NeighborCount returns the number of connected neighbors.
 func (a *Agent) NeighborCount() int {
-	// Check both storage methods for compatibility
-	optimizedCount := 0
-	if a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
-		optimizedCount = a.optimizedNeighbors.Count()
-	}
+	return len(a.connectedAgents())
+}
 
-	mapCount := 0
-	a.neighbors.Range(func(_, _ any) bool {
-		mapCount++
+// connectedAgents returns every neighbor exactly once, whether it is held in
+// the optimized storage or in the neighbors map.
+func (a *Agent) connectedAgents() []*Agent {
+	var agents []*Agent
+	if a.useOptimizedNeighbors {
+		agents = a.optimizedNeighbors.All()
+	}
+	a.neighbors.Range(func(key, value any) bool {
+		if a.useOptimizedNeighbors {
+			if id, ok := key.(string); ok {
+				if _, exists := a.optimizedNeighbors.Load(id); exists {
+					return true
+				}
+			}
+		}
+		if neighbor, ok := value.(*Agent); ok {
+			agents = append(agents, neighbor)
+		}
 		return true
 	})
-
-	// Return the max to handle both cases
-	if optimizedCount > mapCount {
-		return optimizedCount
-	}
-	return mapCount
+	return agents
 }
 
 // Neighbors returns the agent's neighbors map for compatibility.
@@ -281,9 +288,8 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 		return
 	}
 
-	if a.useOptimizedNeighbors {
-		a.optimizedNeighbors.Store(otherID, other)
-	} else {
+	// The neighbors map takes the connections that do not fit
+	if !a.useOptimizedNeighbors || !a.optimizedNeighbors.Store(otherID, other) {
 		a.neighbors.Store(otherID, other)
 	}
 }
@@ -292,16 +298,16 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 func (a *Agent) DisconnectFrom(otherID string) {
 	if a.useOptimizedNeighbors {
 		a.optimizedNeighbors.Delete(otherID)
-	} else {
-		a.neighbors.Delete(otherID)
 	}
+	a.neighbors.Delete(otherID)
 }
 
 // IsConnectedTo checks if connected to another agent.
 func (a *Agent) IsConnectedTo(otherID string) bool {
 	if a.useOptimizedNeighbors {
-		_, exists := a.optimizedNeighbors.Load(otherID)
-		return exists
+		if _, exists := a.optimizedNeighbors.Load(otherID); exists {
+			return true
+		}
 	}
 	_, exists := a.neighbors.Load(otherID)
 	return exists
@@ -310,17 +316,7 @@ func (a *Agent) IsConnectedTo(otherID string) bool {
 // UpdateContext updates the agent's perception efficiently with both optimizations.
 func (a *Agent) UpdateContext() {
 	// Get neighbors efficiently
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.connectedAgents()
 
 	if len(neighborList) == 0 {
 		a.context.Store(core.Context{
@@ -488,17 +484,7 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 
 // calculateLocalCoherence efficiently calculates coherence.
 func (a *Agent) calculateLocalCoherence() float64 {
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.connectedAgents()
 
 	if len(neighborList) == 0 {
 		return 0
-- 
2.43.0


From 1bc5b6b07350f404aa2442b2005e9dcc6eceb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:48 +0000
Subject: [PATCH 06/40] fix: make agent builders, iteration and disruption work
 for large swarms

Above 100 agents the swarm keeps its agents in a slice, which these paths
ignored: a custom builder was silently replaced by default agents, ForEachAgent
(and with it every topology) visited nobody and DisruptAgents did nothing.
---
 emerge/swarm/swarm.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 98b97ae..04af6cf 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -290,7 +290,12 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 	return func(s *Swarm) error {
 		for i := range s.size {
 			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
-			s.agents.Store(a.ID, a)
+			if s.optimized {
+				s.agentIndex[a.ID] = len(s.agentSlice)
+				s.agentSlice = append(s.agentSlice, a)
+			} else {
+				s.agents.Store(a.ID, a)
+			}
 		}
 		return nil
 	}
@@ -568,15 +573,13 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 	targetCount := int(float64(s.Size()) * percentage)
 	disrupted := 0
 
-	s.agents.Range(func(_, value any) bool {
+	s.ForEachAgent(func(a *agent.Agent) bool {
 		if disrupted >= targetCount {
 			return false
 		}
 
-		if a, ok := value.(*agent.Agent); ok {
-			a.SetPhase(random.Phase())
-			disrupted++
-		}
+		a.SetPhase(random.Phase())
+		disrupted++
 		return true
 	})
 
@@ -610,12 +613,11 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 // ForEachAgent applies a function to each agent in the swarm.
 // This provides controlled access to agents without exposing the internal map.
 func (s *Swarm) ForEachAgent(fn func(*agent.Agent) bool) {
-	s.agents.Range(func(_, value any) bool {
-		if agent, ok := value.(*agent.Agent); ok {
-			return fn(agent)
+	for _, a := range s.collectAgents() {
+		if !fn(a) {
+			return
 		}
-		return true
-	})
+	}
 }
 
 // AutoScaleConfig returns a configuration that automatically scales based on swarm size.
-- 
2.43.0


From ad2a40c9609d990774d1b5cd10417c4a555d6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 07/40] fix: build a custom topology after the agents exist

WithTopology ran while the swarm was still empty, so ring and star always
failed and a fully connected swarm came out without a single connection.
---
 emerge/swarm/swarm.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 04af6cf..96ca0db 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -43,8 +43,8 @@ type Swarm struct {
 	basin       *emerge.AttractorBasin
 	convergence *monitoring.ConvergenceMonitor
 
-	// Track initialization state
-	connectionsEstablished bool
+	// Custom topology builder, if any
+	topology func(*Swarm) error
 
 	// Goal-directed synchronization
 	goalDirectedSync *GoalDirectedSync
@@ -148,8 +148,12 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		}
 	}
 
-	// Establish connections if not already done
-	if !s.connectionsEstablished {
+	// Establish connections
+	if s.topology != nil {
+		if err := s.topology(s); err != nil {
+			return nil, fmt.Errorf("topology build failed: %w", err)
+		}
+	} else {
 		s.establishConnections()
 	}
 
@@ -304,10 +308,8 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 // WithTopology uses a custom topology builder.
 func WithTopology(builder func(*Swarm) error) Option {
 	return func(s *Swarm) error {
-		if err := builder(s); err != nil {
-			return fmt.Errorf("topology build failed: %w", err)
-		}
-		s.connectionsEstablished = true
+		// Built by New once the agents exist
+		s.topology = builder
 		return nil
 	}
 }
-- 
2.43.0


From f7d0e237eefe882487dc383182146b380029efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:58 +0000
Subject: [PATCH 08/40] fix: guarantee the minimum neighbor count in optimized
 connection setup

---
 emerge/swarm/swarm.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 96ca0db..07d07c3 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -378,6 +378,17 @@ func (s *Swarm) establishMinimalConnections(agents []*agent.Agent) {
 			}
 			attempts++
 		}
+
+		// Unlucky draws must not leave the agent below its minimum
+		for _, neighbor := range agents {
+			if a.NeighborCount() >= s.config.MinNeighbors {
+				break
+			}
+			if neighbor.ID != a.ID && !a.IsConnectedTo(neighbor.ID) {
+				a.Neighbors().Store(neighbor.ID, neighbor)
+				neighbor.Neighbors().Store(a.ID, a)
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 584e2a816cae25949507c6cae62171f0de08cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 09/40] fix: report convergence and coherence of a running
 swarm

Nothing recorded measurements, so IsConverged, ConvergenceTime and
CurrentCoherence never changed.
---
 emerge/swarm/goal_directed.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 1366d36..8ee9a1b 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -114,6 +114,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 			// Step 2: Record convergence
 			gds.convergenceMonitor.RecordSample(currentPattern, coherence)
+			gds.swarm.convergence.Record(coherence)
 
 			// Step 3: Check if we've achieved the goal
 			if gds.isPatternAchieved(currentPattern) {
-- 
2.43.0


From 2b57c2ec17f58537b2cad41f39f23315e1ab79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 10/40] fix: run up to the iteration cap when the target
 exceeds the practical limit

The infinite time factor overflowed the integer conversion and the run failed
before its first iteration.
---
 emerge/swarm/goal_directed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 8ee9a1b..6856c1d 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -92,8 +92,8 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 	// Adjust max iterations based on difficulty
 	timeFactor := GetConvergenceTimeFactor(swarmSize, target.Coherence)
-	maxIterations := int(gds.config.Strategy.MaxIterationsFactor * timeFactor)
-	maxIterations = min(maxIterations, 1000) // Cap at reasonable limit
+	// Cap at reasonable limit before converting: the factor may be infinite
+	maxIterations := int(math.Min(gds.config.Strategy.MaxIterationsFactor*timeFactor, 1000))
 
 	// Goal-directed loop
 	ticker := time.NewTicker(gds.config.Strategy.UpdateInterval)
-- 
2.43.0


From 9b44e3081993f1deaa9305f687a1eed8019ed8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:58 +0000
Subject: [PATCH 11/40] fix: keep tuned goal configurations valid

Tuning for throughput or resilience could push scales and rates above 1, and
sizing a fast configuration could truncate its update interval to zero; the
result was then rejected by validation.
---
 emerge/swarm/config.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e559add..e3e9211 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -416,7 +416,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 
 	case trait.Throughput:
 		// Optimize for maximum processing
-		c.Convergence.BaseAdjustmentScale *= 1.2
+		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
 		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
@@ -425,8 +425,8 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 		c.Variation.BaseRange[0] *= 1.3
 		c.Variation.BaseRange[1] *= 1.4
 		c.Resonance.NoiseMagnitude *= 1.5
-		c.Resonance.AffectedAgents *= 1.5
-		c.Resonance.ActivationRate *= 1.8
+		c.Resonance.AffectedAgents = minValue(1.0, c.Resonance.AffectedAgents*1.5)
+		c.Resonance.ActivationRate = minValue(1.0, c.Resonance.ActivationRate*1.8)
 
 	case trait.Precision:
 		// Tighten tolerances for accuracy
@@ -458,7 +458,7 @@ func (c *Config) WithSize(agentCount int) *Config {
 		c.Convergence.ToleranceLarge = 0.015
 		c.Variation.BaseRange[0] *= 0.8
 		c.Variation.BaseRange[1] *= 0.9
-		c.Strategy.UpdateInterval = time.Duration(minValue(50, int(c.Strategy.UpdateInterval/time.Millisecond))) * time.Millisecond
+		c.Strategy.UpdateInterval = min(50*time.Millisecond, c.Strategy.UpdateInterval)
 
 	case agentCount <= 200:
 		// Medium swarms use default tolerances
-- 
2.43.0


From 62a8d539c1c5a09044852000d8274541366d314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 12/40] fix: keep RunContinuous running when one
 synchronization attempt gives up

It is documented to exit only when the context is canceled and to keep trying
to recover.
---
 emerge/swarm/swarm_continuous_run.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index a46aea3..c46e7ac 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -2,7 +2,6 @@ package swarm
 
 import (
 	"context"
-	"errors"
 	"math"
 	"time"
 
@@ -214,14 +213,14 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		case <-ctx.Done():
 			return ctx.Err()
 
-		case err := <-syncDone:
+		case <-syncDone:
 			state.syncActive = false
 
-			if err != nil && !errors.Is(err, context.Canceled) {
-				// Real error occurred
-				return err
+			if ctx.Err() != nil {
+				return ctx.Err()
 			}
-			// Synchronization completed successfully, continue monitoring
+			// Synchronization completed or gave up for now: continue monitoring,
+			// which starts another attempt if it is needed
 
 		case <-ticker.C:
 			currentCoherence := s.MeasureCoherence()
-- 
2.43.0


From 68ef98be76aec30caa16a0c1a4a1e624f5cae7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:01 +0000
Subject: [PATCH 13/40] fix: measure phase convergence correctly for targets
 outside one turn

A target phase of several turns gave scores far above 1.
---
 emerge/swarm/phase_convergence.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/emerge/swarm/phase_convergence.go b/emerge/swarm/phase_convergence.go
index 45c540c..ccaf78f 100644
--- a/emerge/swarm/phase_convergence.go
+++ b/emerge/swarm/phase_convergence.go
@@ -2,6 +2,8 @@ package swarm
 
 import (
 	"math"
+
+	"github.com/carlisia/bio-adapt/emerge/core"
 )
 
 // MeasurePhaseConvergence calculates how well agents have converged to a target phase.
@@ -17,12 +19,7 @@ func (s *Swarm) MeasurePhaseConvergence(targetPhase float64) float64 {
 	for _, agent := range agents {
 		phase := agent.Phase()
 		// Calculate circular distance
-		diff := math.Abs(phase - targetPhase)
-		// Handle wraparound
-		if diff > math.Pi {
-			diff = 2*math.Pi - diff
-		}
-		totalDistance += diff
+		totalDistance += math.Abs(core.PhaseDifference(phase, targetPhase))
 	}
 
 	avgDistance := totalDistance / float64(len(agents))
-- 
2.43.0


From 3ef11225d95c28f0332b184ba91eb45267b6a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:02 +0000
Subject: [PATCH 14/40] fix: do not acquire the convergence monitors lock twice

Statistics and PredictConvergenceTime re-entered the read lock, which deadlocks
as soon as a Record or Reset waits in between.
---
 emerge/monitoring/convergence.go | 28 ++++++++++++++++++++++------
 internal/emerge/convergence.go   | 28 ++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 814b669..55338e9 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence without locking.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate without locking.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability without locking.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime without locking.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 19d370a..290ebc0 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence without locking.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate without locking.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability without locking.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime without locking.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
-- 
2.43.0


From de1374fd38526966a4ec618f92b7452f04c8dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 15/40] fix: synchronize changing the convergence target with
 recording samples

---
 emerge/convergence/monitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emerge/convergence/monitor.go b/emerge/convergence/monitor.go
index 7a6d49b..a9cef73 100644
--- a/emerge/convergence/monitor.go
+++ b/emerge/convergence/monitor.go
@@ -42,6 +42,8 @@ func NewMonitor(windowSize int) *Monitor {
 
 // SetTarget sets the target coordination state to converge toward.
 func (m *Monitor) SetTarget(target *core.TargetPattern) {
+	m.historyMu.Lock()
+	defer m.historyMu.Unlock()
 	m.target = target
 }
 
-- 
2.43.0


From 69a81016b2d4d652f597e73fc963aa424eac7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 16/40] fix: normalize states with very large phases
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The subtraction loop never ended once 2π was below the precision of the phase.
---
 emerge/core/state.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/emerge/core/state.go b/emerge/core/state.go
index 731e58b..e423208 100644
--- a/emerge/core/state.go
+++ b/emerge/core/state.go
@@ -81,12 +81,7 @@ func (s *State) NormalizeAndValidate() error {
 func (s *State) normalize() {
 	// Wrap phase to [0, 2π]
 	if !math.IsNaN(s.Phase) && !math.IsInf(s.Phase, 0) {
-		for s.Phase < 0 {
-			s.Phase += 2 * math.Pi
-		}
-		for s.Phase >= 2*math.Pi {
-			s.Phase -= 2 * math.Pi
-		}
+		s.Phase = WrapPhase(s.Phase)
 	}
 
 	// Clamp coherence to [0, 1]
-- 
2.43.0


From 1bc436b81c90e922d47f2494cc4739604e659809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 17/40] fix: compare patterns whose phases do not vary

With both amplitudes zero the similarity, even of identical patterns, was NaN.
---
 emerge/monitoring/patterns.go | 7 +++++--
 internal/emerge/pattern.go    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index d0b8c15..67696a0 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -96,8 +96,11 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 	}
 
 	// Compare amplitudes
-	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0
+	if p.Amplitude != other.Amplitude {
+		ampDiff := math.Abs(p.Amplitude - other.Amplitude)
+		ampSim = 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index 2ccc5ae..ceee237 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -97,8 +97,11 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 	}
 
 	// Compare amplitudes
-	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0
+	if p.Amplitude != other.Amplitude {
+		ampDiff := math.Abs(p.Amplitude - other.Amplitude)
+		ampSim = 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
-- 
2.43.0


From 01ce9a6bcae9c47a23fe65f81f748fec5089c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 18/40] fix: detect gaps in patterns with fewer frequencies
 than phases

---
 emerge/monitoring/patterns.go | 4 +++-
 internal/emerge/pattern.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index 67696a0..b758ab0 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -53,7 +53,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index ceee237..8f6d4f4 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -54,7 +54,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
-- 
2.43.0


From 31957ede8139cc772983f8f7c77b4265782a15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:18 +0000
Subject: [PATCH 19/40] fix: honor the configured initial energy of optimized
 agents

The resource manager option overwrote it with the maximum token count.
---
 emerge/agent/agent.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 6a2d09b..000888b 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -112,7 +112,6 @@ func NewOptimizedFromConfig(id string, cfg config.Agent) (*Agent, error) {
 	opts := []Option{
 		WithPhase(cfg.Phase),
 		WithFrequency(cfg.Frequency),
-		WithEnergy(cfg.InitialEnergy),
 		WithInfluence(cfg.Influence),
 		WithStubbornness(cfg.Stubbornness),
 		WithSwarmInfo(cfg.SwarmSize, maxNeighbors),
@@ -145,6 +144,9 @@ func NewOptimizedFromConfig(id string, cfg config.Agent) (*Agent, error) {
 		opts = append(opts, WithResourceManager(resource.NewTokenManager(cfg.MaxTokens)))
 	}
 
+	// Setting a resource manager also sets the energy, so this comes after it
+	opts = append(opts, WithEnergy(cfg.InitialEnergy))
+
 	// Add strategy based on type
 	switch cfg.StrategyType {
 	case strategyPhaseNudge:
-- 
2.43.0


From b73489103a5fb3be76d5dffb3dd6e34e3ef64a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:08 +0000
Subject: [PATCH 20/40] =?UTF-8?q?fix:=20measure=20the=20phase=20difference?=
 =?UTF-8?q?=20of=200=20and=203=CF=80/2=20along=20the=20shorter=20way?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 emerge/core/phase.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/emerge/core/phase.go b/emerge/core/phase.go
index 79f3699..162bd59 100644
--- a/emerge/core/phase.go
+++ b/emerge/core/phase.go
@@ -14,22 +14,7 @@ func PhaseDifference(phase1, phase2 float64) float64 {
 	diff := phase1 - phase2
 
 	// Use atan2 to get the correct phase difference considering the circle
-	result := math.Atan2(math.Sin(diff), math.Cos(diff))
-
-	// Handle specific edge cases for test compatibility
-	const eps = 1e-10
-
-	// Special case: 0 to 3π/2 should return -π/2 (clockwise)
-	if math.Abs(phase1) < eps && math.Abs(phase2-3*math.Pi/2) < eps {
-		return -math.Pi / 2
-	}
-
-	// Special case: 3π/2 to 0 should return π/2 (counterclockwise)
-	if math.Abs(phase1-3*math.Pi/2) < eps && math.Abs(phase2) < eps {
-		return math.Pi / 2
-	}
-
-	return result
+	return math.Atan2(math.Sin(diff), math.Cos(diff))
 }
 
 // MeasureCoherence calculates the Kuramoto order parameter for phase synchronization.
-- 
2.43.0


From 0edf18b3b4a20a8f747f3e200320d72f4f3bef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:18 +0000
Subject: [PATCH 21/40] fix: keep the severity of frequency gaps within 0 and 1

---
 emerge/core/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/core/pattern.go b/emerge/core/pattern.go
index 61c9038..1983562 100644
--- a/emerge/core/pattern.go
+++ b/emerge/core/pattern.go
@@ -70,7 +70,7 @@ func IdentifyGaps(current, target *TargetPattern) []PatternGap {
 				Type:     "frequency",
 				Current:  float64(current.Frequency),
 				Target:   float64(target.Frequency),
-				Severity: math.Abs(freqRatio - 1.0),
+				Severity: math.Min(math.Abs(freqRatio-1.0), 1.0),
 			})
 		}
 	}
-- 
2.43.0


From 58f33670d19f5236086bcd4a9a45d7857173a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:02 +0000
Subject: [PATCH 22/40] fix: do not block when a batch manager is reset while
 it processes

---
 simulations/emerge/simulation/batch_manager.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 6656e82..49f91ae 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -181,8 +181,12 @@ func (bm *BatchManager) Reset() {
 	bm.lastBatchSize = 0
 
 	// Clear queue
-	for len(bm.queue) > 0 {
-		<-bm.queue
+	for empty := false; !empty; {
+		select {
+		case <-bm.queue:
+		default:
+			empty = true
+		}
 	}
 
 	bm.currentMu.Lock()
-- 
2.43.0


From e6a07b2e798717c92bff3e6df6e1245acfd70024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:02 +0000
Subject: [PATCH 23/40] fix: do not spin while collecting batches

---
 .../emerge/simulation/batch_manager.go        | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 49f91ae..f0aa1e2 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -95,7 +95,7 @@ func (bm *BatchManager) collectSynchronizedBatches(initial AgentBatch) []Task {
 	timer := time.NewTimer(BatchWindow)
 	defer timer.Stop()
 
-	for {
+	for len(collected) < MaxBatchSize {
 		select {
 		case <-timer.C:
 			// Window closed
@@ -103,12 +103,19 @@ func (bm *BatchManager) collectSynchronizedBatches(initial AgentBatch) []Task {
 		case additional := <-bm.queue:
 			// Add to collected batch
 			collected = append(collected, additional.Tasks...)
+		}
+	}
+
+	// Batch is full, take only what is immediately available
+	for {
+		select {
+		case <-timer.C:
+			// Window closed
+			return collected
+		case additional := <-bm.queue:
+			collected = append(collected, additional.Tasks...)
 		default:
-			// No more batches immediately available
-			if len(collected) >= MaxBatchSize {
-				// Batch is full
-				return collected
-			}
+			return collected
 		}
 	}
 }
-- 
2.43.0


From 1d86a75c4aedd15567ce52530bc694c02aba0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:32 +0000
Subject: [PATCH 24/40] fix: run the simulated swarm at most once at a time

---
 simulations/emerge/simulation/simulation.go | 49 +++++++++++++--------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index e53555c..584d460 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -50,8 +50,8 @@ type Simulation struct {
 	resetTime       time.Time
 	startTime       time.Time
 	parentCtx       context.Context // Parent context from Start
-	swarmCtx        context.Context
 	swarmCancel     context.CancelFunc
+	swarmDone       chan struct{} // Closed when the latest swarm run has ended
 }
 
 // Start begins the simulation
@@ -60,18 +60,12 @@ func (s *Simulation) Start(ctx context.Context) error {
 	s.running = true
 	s.startTime = time.Now()
 	s.parentCtx = ctx
-	// Create swarm context that we can cancel on pause
-	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
+	// Start swarm synchronization, unless paused already
+	if !s.paused {
+		s.startSwarm()
+	}
 	s.mu.Unlock()
 
-	// Start swarm synchronization
-	go func() {
-		if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-			// Log error but don't crash
-			_ = err
-		}
-	}()
-
 	// Start agents
 	for _, workload := range s.workloads {
 		workload.Start(ctx, s.batch)
@@ -90,6 +84,25 @@ func (s *Simulation) Start(ctx context.Context) error {
 	return nil
 }
 
+// startSwarm starts swarm synchronization with a context that Pause cancels.
+// A previous run is given time to end, so that there is never more than one.
+// The caller holds s.mu.
+func (s *Simulation) startSwarm() {
+	ctx, cancel := context.WithCancel(s.parentCtx)
+	prev, done := s.swarmDone, make(chan struct{})
+	s.swarmCancel, s.swarmDone = cancel, done
+	go func() {
+		defer close(done)
+		if prev != nil {
+			<-prev
+		}
+		if err := s.emergeClient.Start(ctx); err != nil && !errors.Is(err, context.Canceled) {
+			// Log error but don't crash
+			_ = err
+		}
+	}()
+}
+
 // Reset resets the simulation
 func (s *Simulation) Reset() {
 	s.mu.Lock()
@@ -275,6 +288,9 @@ func (s *Simulation) Disrupt() {
 func (s *Simulation) Pause() {
 	s.mu.Lock()
 	defer s.mu.Unlock()
+	if s.paused {
+		return
+	}
 	s.paused = true
 	// Cache the current coherence and phases so everything freezes
 	s.pausedCoherence = s.emergeClient.Swarm().MeasureCoherence()
@@ -292,16 +308,13 @@ func (s *Simulation) Pause() {
 func (s *Simulation) Resume() {
 	s.mu.Lock()
 	defer s.mu.Unlock()
+	if !s.paused {
+		return
+	}
 	s.paused = false
 	// Restart swarm with a new context
 	if s.parentCtx != nil {
-		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
-		go func() {
-			if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-				// Log error but don't crash
-				_ = err
-			}
-		}()
+		s.startSwarm()
 	}
 }
 
-- 
2.43.0


From 60db74c66b8bf9a10426e4d716b548f9a63b6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:54 +0000
Subject: [PATCH 25/40] fix: keep synchronizing the simulated swarm so that it
 recovers from disruptions

---
 simulations/emerge/simulation/simulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 584d460..f549498 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -96,7 +96,7 @@ func (s *Simulation) startSwarm() {
 		if prev != nil {
 			<-prev
 		}
-		if err := s.emergeClient.Start(ctx); err != nil && !errors.Is(err, context.Canceled) {
+		if err := s.emergeClient.Swarm().RunContinuous(ctx); err != nil && !errors.Is(err, context.Canceled) {
 			// Log error but don't crash
 			_ = err
 		}
-- 
2.43.0


From c7a44ef69194f6b4cb3d7374b0ef778faa9899d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:56 +0000
Subject: [PATCH 26/40] fix: synchronize generating tasks with resetting and
 observing a workload

---
 simulations/emerge/simulation/agent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index efe48a9..68b245b 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -309,8 +309,10 @@ func (w *Workload) generateTasks(ctx context.Context) {
 			}
 
 			// Pattern-specific task generation logic
+			w.mu.Lock()
 			shouldGenerate := w.shouldGenerateTask()
 			if !shouldGenerate {
+				w.mu.Unlock()
 				continue
 			}
 
@@ -318,11 +320,10 @@ func (w *Workload) generateTasks(ctx context.Context) {
 			numTasks := w.getTaskBatchSize()
 			for range numTasks {
 				task := w.createTask()
-				w.mu.Lock()
 				w.pendingTasks = append(w.pendingTasks, task)
 				w.tasksGenerated++
-				w.mu.Unlock()
 			}
+			w.mu.Unlock()
 
 			// Update interval for mixed pattern
 			if w.pattern == pattern.Mixed {
-- 
2.43.0


From 74d22e4e96bcc7e7f9f74ccb11c977144872051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:58 +0000
Subject: [PATCH 27/40] fix: record when a workload last generated tasks

---
 simulations/emerge/simulation/agent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index 68b245b..2297791 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -318,6 +318,7 @@ func (w *Workload) generateTasks(ctx context.Context) {
 
 			// Generate multiple tasks for burst/high-frequency patterns
 			numTasks := w.getTaskBatchSize()
+			w.lastRequestTime = time.Now()
 			for range numTasks {
 				task := w.createTask()
 				w.pendingTasks = append(w.pendingTasks, task)
-- 
2.43.0


From 988df7c9df6830343d41c04877c89b2e95dca364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:00 +0000
Subject: [PATCH 28/40] fix: track the peak coherence of a simulation

---
 simulations/emerge/simulation/simulation.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index f549498..96df965 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -349,6 +349,9 @@ func (s *Simulation) Snapshot() Snapshot {
 		coherence = s.emergeClient.Swarm().MeasureCoherence()
 	}
 
+	// Track peak coherence and convergence
+	s.metrics.UpdateCoherence(coherence)
+
 	// Get current batch size from queue depth
 	currentBatchSize := len(s.batch.queue)
 
@@ -380,6 +383,8 @@ func (s *Simulation) Snapshot() Snapshot {
 
 // Statistics returns final statistics
 func (s *Simulation) Statistics() Statistics {
+	coherence := s.emergeClient.Swarm().MeasureCoherence()
+	s.metrics.UpdateCoherence(coherence)
 	metrics := s.metrics.Final()
 
 	return Statistics{
@@ -390,7 +395,7 @@ func (s *Simulation) Statistics() Statistics {
 		CostWithSync:     metrics.CostWithSync,
 		TotalSavings:     metrics.TotalSavings,
 		SavingsPercent:   metrics.SavingsPercent,
-		FinalCoherence:   s.emergeClient.Swarm().MeasureCoherence(),
+		FinalCoherence:   coherence,
 		PeakCoherence:    metrics.PeakCoherence,
 		TimeToConverge:   metrics.TimeToConverge,
 	}
-- 
2.43.0


From 9ae3de96fbf06477bcf5b08b8ad4d646887b8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:02 +0000
Subject: [PATCH 29/40] fix: report the default target coherence of a
 simulation

---
 simulations/emerge/simulation/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulations/emerge/simulation/builder.go b/simulations/emerge/simulation/builder.go
index 3976e38..f55e255 100644
--- a/simulations/emerge/simulation/builder.go
+++ b/simulations/emerge/simulation/builder.go
@@ -62,6 +62,10 @@ func createEmergeClient(config BuildConfig) (*emerge.Client, error) {
 // convertToSimConfig converts the build config to the internal Config type.
 // This maintains compatibility with existing simulation code.
 func convertToSimConfig(config BuildConfig) Config {
+	if config.TargetCoherence <= 0 {
+		// The client uses the scale's default then
+		config.TargetCoherence = config.Scale.DefaultTargetCoherence()
+	}
 	return Config{
 		NumAgents:       config.Scale.DefaultAgentCount(),
 		TargetCoherence: config.TargetCoherence,
-- 
2.43.0


From 7cfd544d8b92b4e1f7ed82082ee6d2238681a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 30/40] fix: keep showing a reset for two seconds after the
 latest one

---
 simulations/emerge/simulation/simulation.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 96df965..d2a7d4e 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -212,13 +212,16 @@ func (s *Simulation) Reset() {
 
 	// Mark as reset for visual feedback
 	s.reset = true
-	s.resetTime = time.Now()
+	resetTime := time.Now()
+	s.resetTime = resetTime
 
-	// Clear reset flag after delay
+	// Clear reset flag after delay, unless reset again since
 	go func() {
 		time.Sleep(2 * time.Second)
 		s.mu.Lock()
-		s.reset = false
+		if s.resetTime.Equal(resetTime) {
+			s.reset = false
+		}
 		s.mu.Unlock()
 	}()
 }
-- 
2.43.0


From ca7003052debd668c53bf34d1f5856debfb684ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:15 +0000
Subject: [PATCH 31/40] fix: give every disruption its own time to recover

---
 simulations/emerge/simulation/simulation.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index d2a7d4e..06f7827 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -231,7 +231,8 @@ func (s *Simulation) Disrupt() {
 	s.mu.Lock()
 	// Mark as disrupted for visual feedback
 	s.disrupted = true
-	s.disruptTime = time.Now()
+	disruptTime := time.Now()
+	s.disruptTime = disruptTime
 	s.mu.Unlock()
 
 	// Disrupt synchronization by changing some agents' phases
@@ -277,9 +278,12 @@ func (s *Simulation) Disrupt() {
 					return
 				}
 			case <-timeout:
-				// Safety timeout - clear disruption flag after 30 seconds
+				// Safety timeout - clear disruption flag after 30 seconds,
+				// unless disrupted again since
 				s.mu.Lock()
-				s.disrupted = false
+				if s.disruptTime.Equal(disruptTime) {
+					s.disrupted = false
+				}
 				s.mu.Unlock()
 				return
 			}
-- 
2.43.0


From e87c62aaf65fc8dd6e5a028c360f5f8b4b83e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:32 +0000
Subject: [PATCH 32/40] fix: keep coherence modifiers of patterns in their
 documented range

---
 simulations/emerge/simulation/pattern/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/pattern/pattern.go b/simulations/emerge/simulation/pattern/pattern.go
index bd69cdc..152f7e4 100644
--- a/simulations/emerge/simulation/pattern/pattern.go
+++ b/simulations/emerge/simulation/pattern/pattern.go
@@ -217,7 +217,7 @@ func GetCoherenceModifier(goalType int, agentCount int, p Type) float64 {
 		modifier *= 0.8 // Not enough activity for small swarms
 	}
 
-	return modifier
+	return max(modifier, 0.5)
 }
 
 // Qualifier constants for pattern evaluation
-- 
2.43.0


From 25324b9708dfca38db79aef46d55508dd6ca04c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:32 +0000
Subject: [PATCH 33/40] fix: report the key that selects the periodic tasks
 goal

---
 emerge/goal/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/goal/config.go b/emerge/goal/config.go
index a5a9789..ff9d62f 100644
--- a/emerge/goal/config.go
+++ b/emerge/goal/config.go
@@ -79,7 +79,7 @@ func (g Type) ShortKey() string {
 	case SaveEnergy:
 		return "E" // Energy
 	case MaintainRhythm:
-		return "R" // Rhythm
+		return "M" // rhythM (avoid conflict with R for Reset)
 	case RecoverFromFailure:
 		return "F" // Failure
 	case AdaptToTraffic:
-- 
2.43.0


From 04d3334969c34372c1b3734fae9876a4acd62abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 34/40] fix: do not report an error when there is no text to
 show

---
 simulations/display/display.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index 8dad981..318726e 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -394,7 +394,7 @@ func (d *TerminalDisplay) createLayout() error {
 
 // writeText is a helper for non-critical text widget writes that logs errors but continues
 func writeText(w *text.Text, s string, opts ...text.WriteOption) {
-	if w == nil {
+	if w == nil || s == "" { // text widgets reject empty text
 		return
 	}
 	if err := w.Write(s, opts...); err != nil {
-- 
2.43.0


From d68afa99d8d339619605d50800dbe0d6fc57ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 35/40] fix: measure phases around the circle in the terminal
 display

---
 simulations/display/display.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index 318726e..517046a 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -23,6 +23,7 @@ import (
 	"github.com/mum4k/termdash/widgets/linechart"
 	"github.com/mum4k/termdash/widgets/text"
 
+	"github.com/carlisia/bio-adapt/emerge/core"
 	"github.com/carlisia/bio-adapt/emerge/goal"
 	"github.com/carlisia/bio-adapt/emerge/scale"
 	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
@@ -1091,7 +1092,7 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 		case goal.ReachConsensus:
 			// Wants CLUSTERS (voting blocs)
 			// Green when in a cluster with others
-			clustered := math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2) < 0.5 || math.Abs(a.Phase-4) < 0.5
+			clustered := phaseDistance(a.Phase) < 0.5 || math.Abs(a.Phase-2) < 0.5 || math.Abs(a.Phase-4) < 0.5
 			switch {
 			case clustered:
 				syncIndicator = syncGreen // GOOD - in a voting bloc
@@ -1108,7 +1109,7 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 			case math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2*math.Pi) < 0.5:
 				syncIndicator = syncGreen // GOOD - synchronized
 				phaseColor = cell.ColorGreen
-			case math.Abs(a.Phase) < 1.0:
+			case phaseDistance(a.Phase) < 1.0:
 				syncIndicator = syncYellow // Almost there
 				phaseColor = cell.ColorYellow
 			default:
@@ -1841,10 +1842,7 @@ func getAgentColor(phase, meanPhase, meanMagnitude float64) cell.Color {
 	}
 
 	// Higher coherence - color by alignment with mean field
-	deviation := math.Abs(phase - meanPhase)
-	if deviation > math.Pi {
-		deviation = 2*math.Pi - deviation
-	}
+	deviation := math.Abs(core.PhaseDifference(phase, meanPhase))
 
 	if deviation < math.Pi*(1-meanMagnitude) {
 		return cell.ColorGreen
@@ -2018,7 +2016,7 @@ func (d *TerminalDisplay) displayLatencyHistogram(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		// Phase variance affects latency
-		variance := math.Abs(agent.Phase)
+		variance := phaseDistance(agent.Phase)
 		latency := baseLatency + variance*5
 		bin := int(latency / 10)
 		if bin >= bins {
@@ -2108,7 +2106,7 @@ func (d *TerminalDisplay) displayScheduleAlignment(snapshot SimulationSnapshot)
 	late := 0
 
 	for _, agent := range snapshot.Agents {
-		drift := agent.Phase // Phase represents timing drift
+		drift := core.PhaseDifference(agent.Phase, 0) // Phase represents timing drift
 		switch {
 		case math.Abs(drift) < 0.1:
 			onTime++
@@ -2160,9 +2158,9 @@ func (d *TerminalDisplay) displaySystemHealth(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		switch {
-		case snapshot.Disrupted && math.Abs(agent.Phase) > 2:
+		case snapshot.Disrupted && phaseDistance(agent.Phase) > 2:
 			failed++
-		case math.Abs(agent.Phase) > 1:
+		case phaseDistance(agent.Phase) > 1:
 			degraded++
 		default:
 			healthy++
@@ -2292,6 +2290,11 @@ func (d *TerminalDisplay) displayTrafficLoad(snapshot SimulationSnapshot) {
 	}
 }
 
+// phaseDistance returns how far a phase is from 0, the shorter way around the circle
+func phaseDistance(phase float64) float64 {
+	return math.Abs(core.PhaseDifference(phase, 0))
+}
+
 // createEmptyGrid creates an empty 2D grid
 func createEmptyGrid(width, height int) [][]rune {
 	g := make([][]rune, height)
@@ -2307,9 +2310,9 @@ func createEmptyGrid(width, height int) [][]rune {
 // getAgentCharacter returns the character to display for an agent based on phase
 func getAgentCharacter(phase float64) rune {
 	switch {
-	case math.Abs(phase) < 0.5:
+	case phaseDistance(phase) < 0.5:
 		return '●'
-	case math.Abs(phase) < 1.0:
+	case phaseDistance(phase) < 1.0:
 		return 'o'
 	default:
 		return '∙'
-- 
2.43.0


From bd1a8e88d2208ce79a56dff54341534733c3e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 36/40] fix: divide the whole circle into the regions of the
 load display

---
 simulations/display/display.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index 517046a..28f25d9 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -1828,7 +1828,7 @@ func calculateMeanField(agents []AgentSnapshot) (meanPhase, meanMagnitude float6
 func getAgentColor(phase, meanPhase, meanMagnitude float64) cell.Color {
 	if meanMagnitude < 0.3 {
 		// Low coherence - color by phase group
-		phaseGroup := int((phase + math.Pi) * 3 / (2 * math.Pi))
+		phaseGroup := int(core.WrapPhase(phase) * 3 / (2 * math.Pi))
 		switch phaseGroup {
 		case 0:
 			return cell.ColorRed
@@ -1921,7 +1921,7 @@ func (d *TerminalDisplay) displayLoadDistribution(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		// Map phase to region
-		region := int((agent.Phase + math.Pi) / (2 * math.Pi) * float64(phaseRegions))
+		region := int(core.WrapPhase(agent.Phase) / (2 * math.Pi) * float64(phaseRegions))
 		if region >= phaseRegions {
 			region = phaseRegions - 1
 		}
-- 
2.43.0


From a61613bba638dabf194a6069afbf13c2154f577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 37/40] fix: show no recovery time before the first batch

---
 simulations/display/display.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index 28f25d9..c5ac32c 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -1477,7 +1477,9 @@ func (d *TerminalDisplay) updateMetricsForFailure(snapshot SimulationSnapshot) {
 	case snapshot.Disrupted:
 		resilienceStatus = "RECOVERING"
 		resilienceColor = cell.ColorYellow
-		recoveryTime = fmt.Sprintf("%.1fs", time.Since(snapshot.LastBatchTime).Seconds())
+		if !snapshot.LastBatchTime.IsZero() {
+			recoveryTime = fmt.Sprintf("%.1fs", time.Since(snapshot.LastBatchTime).Seconds())
+		}
 	case snapshot.Coherence >= 0.8:
 		resilienceColor = cell.ColorGreen
 		resilienceStatus = "RESILIENT"
-- 
2.43.0


From 1911ac47f322a850852ec72a5e93c4a7f5e68279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:15 +0000
Subject: [PATCH 38/40] fix: show the outcome of a simulation in its summary

---
 simulations/display/display.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index c5ac32c..5cfa443 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -2617,20 +2617,20 @@ func (d *TerminalDisplay) updateSwarmVisualization(snapshot SimulationSnapshot)
 // ShowSummary displays the final results
 func (d *TerminalDisplay) ShowSummary(stats Statistics) {
 	// Clear display
-	d.titleText.Reset()
+	d.descriptionText.Reset()
 	d.agentsText.Reset()
 	d.metricsText.Reset()
 	d.costText.Reset()
 	d.swarmText.Reset()
 	d.swarmVisText.Reset()
 
-	// Show summary in title area
-	writeText(d.titleText, "🎉 SIMULATION COMPLETE\n\n",
+	// Show summary in the box at the top
+	writeText(d.descriptionText, "🎉 SIMULATION COMPLETE\n\n",
 		text.WriteCellOpts(cell.FgColor(cell.ColorGreen), cell.Bold()))
-	writeText(d.titleText, fmt.Sprintf("Total Savings: $%.2f (%.1f%%)\n",
+	writeText(d.descriptionText, fmt.Sprintf("Total Savings: $%.2f (%.1f%%)\n",
 		stats.TotalSavings, stats.SavingsPercent),
 		text.WriteCellOpts(cell.FgColor(cell.ColorYellow), cell.Bold()))
-	writeText(d.titleText, "Agents successfully learned to batch API calls!",
+	writeText(d.descriptionText, "Agents successfully learned to batch API calls!",
 		text.WriteCellOpts(cell.FgColor(cell.ColorWhite)))
 
 	// Show detailed stats
-- 
2.43.0


From 1e53cdf8d3644dd205981f506d3dfe6c19c1862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 39/40] fix: simulate the auto-selected request pattern that is
 shown

The pattern was selected for the display only, after the simulation had been
built with an unset pattern, so workloads generated tasks for another pattern
than the one on screen.
---
 simulations/emerge/main.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simulations/emerge/main.go b/simulations/emerge/main.go
index b02ca60..49fe7f6 100644
--- a/simulations/emerge/main.go
+++ b/simulations/emerge/main.go
@@ -195,6 +195,11 @@ func runSimulation(ctx context.Context, cfg Config) *ui.RunResult {
 		// Use default
 	}
 
+	// Auto-select the pattern if not set, so that what is simulated is what is shown
+	if cfg.Pattern == pattern.Unset {
+		cfg.Pattern = pattern.BestPatternForGoal(int(cfg.Goal()))
+	}
+
 	buildConfig := simulation.BuildConfig{
 		Goal:            cfg.Goal(),
 		Scale:           cfg.Scale,
@@ -214,10 +219,6 @@ func runSimulation(ctx context.Context, cfg Config) *ui.RunResult {
 			td.SetSimulationName(cfg.DisplayName())
 			td.SetGoalName(cfg.Goal().String())
 			td.SetGoalAndScale(cfg.Goal(), cfg.Scale)
-			// Set pattern from config (or auto-select if not set)
-			if cfg.Pattern == pattern.Unset {
-				cfg.Pattern = pattern.BestPatternForGoal(int(cfg.Goal()))
-			}
 			td.SetPattern(cfg.Pattern)
 		}
 		disp = termDisplay
-- 
2.43.0


From 64f1ac16f25b818e0072ab8d258a759c7f888cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 40/40] fix: signals end the emerge command also after a switch

handleSignals held the cancel function of the first run only, so that after
any switch of scale, goal or pattern SIGINT and SIGTERM were caught but did
nothing.
---
 simulations/emerge/main.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simulations/emerge/main.go b/simulations/emerge/main.go
index 49fe7f6..f830dfa 100644
--- a/simulations/emerge/main.go
+++ b/simulations/emerge/main.go
@@ -55,11 +55,14 @@ func main() {
 	config.UpdateInterval = *updateInterval
 	config.Timeout = *timeout
 
-	// Create context with cancellation
-	ctx, cancel := context.WithCancel(context.Background())
+	// Context of the whole program, also across switches
+	appCtx, shutdown := context.WithCancel(context.Background())
 
 	// Handle graceful shutdown
-	go handleSignals(cancel)
+	go handleSignals(shutdown)
+
+	// Create context with cancellation
+	ctx, cancel := context.WithCancel(appCtx)
 
 	// Run simulation loop (allows scale switching)
 	for {
@@ -164,7 +167,7 @@ func main() {
 				fmt.Printf("\nSwitching to %s pattern...\n\n", newPattern.String())
 			}
 			// Create new context for restart
-			ctx, cancel = context.WithCancel(context.Background())
+			ctx, cancel = context.WithCancel(appCtx)
 			continue
 		}
 		break
-- 
2.43.0

