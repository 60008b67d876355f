// C12: the connection graph of a swarm is a simple symmetric graph with the configured minimum degree.
package main

import (
	"errors"
	"fmt"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/emerge/swarm"
	"MODULE/internal/config"
	"MODULE/internal/topology"
	"MODULE/zzverif/hx"
	"MODULE/zzverif/vs"
)

var goal = core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.7}

// graph reads the connections and checks that they are well-formed
func graph(e *vs.E, s *swarm.Swarm) map[string]map[string]bool {
	m := s.Agents()
	g := map[string]map[string]bool{}
	for id, a := range m {
		g[id] = map[string]bool{}
		for nid := range m {
			if a.IsConnectedTo(nid) {
				g[id][nid] = true
			}
		}
		e.Check(!a.IsConnectedTo(id), "%s is connected to itself", id)
		// the map holds the connections made through it
		a.Neighbors().Range(func(k, v any) bool {
			nid, ok := k.(string)
			b, ok2 := v.(*agent.Agent)
			if !ok || !ok2 {
				e.Fail("%s has a connection %v: %T", id, k, v)
				return true
			}
			e.Check(b == m[nid], "%s is connected to %q, which is not that agent of the swarm", id, nid)
			return true
		})
		e.Check(a.NeighborCount() == len(g[id]), "%s counts %d neighbours, has %d", id, a.NeighborCount(), len(g[id]))
	}
	for a, ns := range g {
		for b := range ns {
			e.Check(g[b][a], "%s is connected to %s but not the other way", a, b)
		}
	}
	e.Step(len(g))
	return g
}

func links(g map[string]map[string]bool) int {
	n := 0
	for _, x := range g {
		n += len(x)
	}
	return n / 2
}

func component(g map[string]map[string]bool) int {
	seen := map[string]bool{}
	var st []string
	for id := range g {
		st = append(st, id)
		seen[id] = true
		break
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for y := range g[x] {
			if !seen[y] {
				seen[y] = true
				st = append(st, y)
			}
		}
	}
	return len(seen)
}

func cfg(prob float64, min, max int, optim bool, thr int) config.Swarm {
	return config.Swarm{ConnectionProbability: prob, MaxNeighbors: max, MinNeighbors: min, CouplingStrength: 0.5, Stubbornness: 0.1, InitialEnergy: 100,
		BasinStrength: 0.5, BasinWidth: 1, BaseConfidence: 0.5, InfluenceDefault: 0.5, AgentUpdateInterval: time.Second, MonitoringInterval: time.Second,
		EnableConnectionOptim: optim, ConnectionOptimThreshold: thr}
}

func check(e *vs.E, s *swarm.Swarm) {
	g := graph(e, s)
	c := s.Config()
	n := len(g)
	opt := c.EnableConnectionOptim && n > c.ConnectionOptimThreshold
	for id, ns := range g {
		e.Check(len(ns) >= c.MinNeighbors, "%s has %d neighbours, the minimum is %d", id, len(ns), c.MinNeighbors)
		if c.ConnectionProbability >= 1 && !opt {
			w := c.MaxNeighbors
			e.Check(len(ns) >= w, "every connection is to be made, up to %d, and %s has %d", w, id, len(ns))
		}
	}
	e.Check(links(g) <= n*c.MaxNeighbors, "%d links with at most %d made per agent", links(g), c.MaxNeighbors)
	if (c.ConnectionProbability <= 0 || opt) && c.MinNeighbors == 0 {
		e.Check(links(g) == 0, "%d links without any reason", links(g))
	}
	if opt {
		e.Check(links(g) <= n*c.MinNeighbors, "%d links where %d per agent were asked for", links(g), c.MinNeighbors)
	}
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "all draws", Run: func(e *vs.E) {
		e.Param("swarms of 2-5 prebuilt agents, all outcomes of the first 12 connection draws, minimum and maximum grids, both connection methods")
		for n := 2; n <= 5; n++ {
			for min := 0; min < n; min++ {
				for max := 1; max < n; max++ {
					if min > max {
						continue
					}
					for _, optim := range []bool{false, true} {
						bits := 12
						if n == 2 {
							bits = 4
						}
						if n == 5 && !e.Thorough() {
							bits = 10
						}
						for mask := 0; mask < 1<<bits; mask += 64 {
							e.Case(func() {
								for mm := mask; mm < mask+64 && mm < 1<<bits; mm++ {
									live := false
									k := 0
									lcg := hx.Lcg(mm + 5)
									r := func(i int, b []byte) {
										if live {
											if k < bits {
												v := 0.9
												if mm&(1<<k) != 0 {
													v = 0.1
												}
												k++
												hx.Fill(b, v)
												return
											}
										}
										lcg(i, b)
									}
									e.Seq(vs.Options{Rand: r, NumCPU: 1}, func() {
										live, k = false, 0
										as := make([]*agent.Agent, n)
										for i := range as {
											as[i] = agent.New(fmt.Sprintf("agent-%d", i))
										}
										i := 0
										live = true
										s, err := swarm.New(n, goal, swarm.WithConfig(cfg(0.5, min, max, optim, 0)),
											swarm.WithAgentBuilder(func(string, int, config.Swarm) *agent.Agent { i++; return as[i-1] }))
										live = false
										e.Label("n %d min %d max %d optimised %v draws %012b", n, min, max, optim, mm)
										if err != nil {
											e.Fail("%v", err)
											return
										}
										check(e, s)
										e.Seen(fmt.Sprint(n, min, max, optim, links(graph(e, s))))
									})
								}
							})
						}
					}
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "grid", Run: func(e *vs.E) {
		sizes := []int{1, 2, 3, 6, 9, 10, 11, 19, 20, 21, 22, 23, 45, 99, 100, 101, 102, 130}
		if e.Thorough() {
			sizes = append(sizes, 200, 201, 300)
		}
		e.Param("%d sizes x probability x minimum x maximum x connection method x random streams", len(sizes))
		for _, n := range sizes {
			for _, p := range []float64{0, 0.05, 0.5, 1} {
				for _, max := range []int{1, 2, 5, 19, 20, 21, 25, n - 1} {
					if max < 1 && n > 1 || max > n-1 {
						continue
					}
					for _, min := range []int{0, 1, 2, 4, 20, 22, n - 1} {
						if min > max {
							continue
						}
						for _, thr := range []int{-1, 0, n - 1, n} {
							e.Case(func() {
								ks := 1
								if e.Thorough() {
									ks = 4
								}
								for k := 1; k <= ks; k++ {
									e.Seq(vs.Options{Rand: hx.Lcg(k), NumCPU: 1, MaxSteps: 100000000}, func() {
										t := thr
										if t < 0 {
											t = 0
										}
										c := cfg(p, min, max, thr >= 0, t)
										e.Label("size %d probability %v min %d max %d optimised %v threshold %d stream %d", n, p, min, max, thr >= 0, t, k)
										s, err := swarm.New(n, goal, swarm.WithConfig(c))
										if err != nil {
											e.Fail("%v", err)
											return
										}
										check(e, s)
										if n <= 100 {
											s, err = swarm.NewSwarmFromConfig(n, goal, c)
											if err != nil {
												e.Fail("%v", err)
												return
											}
											check(e, s)
										}
									})
								}
							})
						}
					}
				}
			}
		}
	}})
	// unlucky draws: the optimised method must still reach the minimum
	vs.AddEnum(&vs.Enum{Name: "unlucky draws", Run: func(e *vs.E) {
		for _, n := range []int{2, 3, 5, 21, 24, 101, 103} {
			for _, min := range []int{1, 2, 4, 20, 22, n - 1} {
				if min > n-1 {
					continue
				}
				for _, r := range []float64{0, 0.5, 0.999} {
					e.Case(func() {
						e.Seq(vs.Options{Rand: hx.Const(r), NumCPU: 1, MaxSteps: 100000000}, func() {
							e.Label("size %d min %d every draw %v", n, min, r)
							s, err := swarm.New(n, goal, swarm.WithConfig(cfg(0.5, min, n-1, true, 0)))
							if err != nil {
								e.Fail("%v", err)
								return
							}
							check(e, s)
						})
					})
				}
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "default", Run: func(e *vs.E) {
		var sizes []int
		for n := 1; n <= 26; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 49, 50, 51, 99, 100, 101, 102, 150, 200, 250, 1000, 1001)
		if e.Thorough() {
			for n := 27; n <= 150; n++ {
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 500, 999, 1500, 2000)
		}
		e.Param("%d sizes with the default configuration", len(sizes))
		for _, n := range sizes {
			for k := 1; k <= 3; k++ {
				e.Case(func() {
					e.Seq(vs.Options{Rand: hx.Lcg(k), NumCPU: 1, MaxSteps: 100000000}, func() {
						e.Label("size %d stream %d", n, k)
						s, err := swarm.New(n, goal)
						if err != nil {
							e.Fail("%v", err)
							return
						}
						check(e, s)
						if n < 10 {
							e.Check(links(graph(e, s)) == n*(n-1)/2, "a very small swarm has %d links", links(graph(e, s)))
						}
					})
				})
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "topologies", Run: func(e *vs.E) {
		tops := map[string]topology.Builder{"ring": topology.Ring, "star": topology.Star, "full": topology.FullyConnected}
		var sizes []int
		for n := 1; n <= 48; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 99, 100, 101, 102, 130)
		e.Param("%d sizes x 3 topologies, built once and twice", len(sizes))
		for _, n := range sizes {
			for _, name := range []string{"ring", "star", "full"} {
				for twice := 0; twice < 2; twice++ {
					e.Case(func() {
						e.Seq(vs.Options{Rand: hx.Lcg(n), NumCPU: 1, MaxSteps: 100000000}, func() {
							e.Label("%s of %d, built %d times", name, n, twice+1)
							s, err := swarm.New(n, goal, swarm.WithTopology(func(s *swarm.Swarm) error {
								if err := tops[name](s); err != nil {
									return err
								}
								if twice == 1 {
									return tops[name](s)
								}
								return nil
							}))
							if n == 1 && name != "full" {
								e.Check(err != nil && s == nil && errors.Is(err, core.ErrInsufficientAgents), "error %v", err)
								return
							}
							if err != nil {
								e.Fail("%v", err)
								return
							}
							g := graph(e, s)
							switch name {
							case "ring":
								w := 2
								if n == 2 {
									w = 1
								}
								for id, ns := range g {
									e.Check(len(ns) == w, "%s has %d neighbours", id, len(ns))
								}
								e.Check(component(g) == n, "the ring is not one ring: %d of %d agents reachable", component(g), n)
							case "star":
								hubs := 0
								for _, ns := range g {
									if len(ns) == n-1 {
										hubs++
									} else {
										e.Check(len(ns) == 1, "an outer agent has %d neighbours", len(ns))
									}
								}
								if n == 2 {
									hubs--
								}
								e.Check(hubs == 1, "%d hubs", hubs)
							case "full":
								for id, ns := range g {
									e.Check(len(ns) == n-1, "%s has %d neighbours", id, len(ns))
								}
							}
						})
					})
				}
			}
		}
	}})
	vs.Main()
}
