//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
)

// shapeOps sets up a graph of groups of some size and shape, and a few
// entities in it: long chains, one group above many, many above one, and
// several layers.
func shapeOps(r *rand.Rand, inc int) (ops []Op, es, gs []string) {
	n, kind := 3+r.Intn(30), r.Intn(6)
	if kind == 0 && r.Intn(2) == 0 {
		n += r.Intn(30)
	}
	for i := 0; i < n; i++ {
		gs = append(gs, fmt.Sprintf("g%d", i))
		ops = append(ops, Op{K: "GroupCreate", G: gs[i], N: -1})
	}
	for i := 0; i < 4; i++ {
		es = append(es, fmt.Sprintf("e%d", i))
		ops = append(ops, Op{K: "EntityCreate", E: es[i], N: -1, S: "s"})
	}
	var edges [][2]int
	switch kind {
	case 0:
		for i := 0; i+1 < n; i++ {
			edges = append(edges, [2]int{i, i + 1})
		}
	case 1:
		for i := 1; i+1 < n; i++ {
			edges = append(edges, [2]int{0, i})
		}
		edges = append(edges, [2]int{1 + r.Intn(n-2), n - 1})
	case 2:
		for i := 1; i+1 < n; i++ {
			edges = append(edges, [2]int{i, n - 1})
		}
		edges = append(edges, [2]int{0, 1 + r.Intn(n-2)})
	case 3:
		w := 1 + n/4
		for i := w; i < n; i++ {
			edges = append(edges, [2]int{(i/w-1)*w + r.Intn(w), i})
		}
	case 4: // a chain each link of which has many others below it
		w := 1 + r.Intn(12)
		last := 0
		for i := 1; i < n; i++ {
			edges = append(edges, [2]int{last, i})
			if i%w == 0 {
				last = i
			}
		}
	case 5:
		for i := 1; i < n; i++ {
			edges = append(edges, [2]int{(i - 1) / 2, i})
		}
	}
	if r.Intn(3) > 0 {
		r.Shuffle(len(edges), func(i, j int) { edges[i], edges[j] = edges[j], edges[i] })
	}
	p := r.Perm(n)
	for i, e := range edges {
		act := ruleINC
		if r.Intn(100) >= inc {
			act = ruleEXC
		}
		ops = append(ops, Op{K: "GroupUpdateRules", G: gs[p[e[0]]], T: gs[p[e[1]]], Act: act})
		if i%7 == 3 {
			ops = append(ops, Op{K: "GroupAddMember", E: oneOf(r, es), G: oneOf(r, gs)})
		}
	}
	ops = append(ops, Op{K: "GroupAddMember", E: es[0], G: gs[p[n-1]]}, Op{K: "GroupAddMember", E: es[1], G: gs[p[n/2]]})
	return ops, es, gs
}

// shapeCheck runs histories that begin with such a graph.  Of the rules
// that are added close percent would complete a cycle.
func shapeCheck(c *Ctx, n, length, close int, w GenW, base EngineCfg) {
	base.Name += "-shapes"
	c.Cases(base.Name, n, func(i int, r *rand.Rand) {
		k := base
		k.World.Backend = oneOf(r, backends)
		var es, gs []string
		k.Setup, es, gs = shapeOps(r, oneOf(r, []int{100, 90, 50}))
		g := newGen(r, w, 0, 0)
		g.E, g.G, g.Big, g.Close = es, gs, true, close
		k.Len, k.AuditEvery = length, 6+length/20
		k.Names = union(es, gs)
		k.Gen = g.Next
		k.runCase(c, i, r)
	})
}
