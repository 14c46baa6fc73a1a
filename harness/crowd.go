//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
)

// crowdOps sets up far more objects of one kind than any list in the code
// could be expected to hold by chance: hundreds of entities, or hundreds
// of groups, with numbers in no order, one entity in most of the groups,
// one group with most of the entities, and capabilities spread thinly
// over the groups.
func crowdOps(r *rand.Rand, ents bool) (ops []Op, es, gs []string) {
	ne, ng := 120+r.Intn(200), 4+r.Intn(8)
	if !ents {
		ne, ng = 3+r.Intn(6), 70+r.Intn(160)
	}
	nums := r.Perm(3 * (ne + ng))
	num := func(i int) int32 {
		if i%3 == 0 {
			return -1
		}
		return int32(nums[i] + 1)
	}
	for i := 0; i < ne; i++ {
		es = append(es, fmt.Sprintf("e%d", i))
	}
	for i := 0; i < ng; i++ {
		gs = append(gs, fmt.Sprintf("g%d", i))
	}
	for i, j := range r.Perm(ne) {
		ops = append(ops, Op{K: "EntityCreate", E: es[j], N: num(i), S: "s"})
	}
	for i, j := range r.Perm(ng) {
		ops = append(ops, Op{K: "GroupCreate", G: gs[j], N: num(ne + i)})
	}
	for _, e := range es {
		if ents && r.Intn(10) > 0 {
			ops = append(ops, Op{K: "GroupAddMember", E: e, G: gs[0]})
		}
	}
	var some []string
	for _, g := range gs[1:] {
		if r.Intn(10) > 0 {
			some = append(some, g)
		}
		if len(some) > 0 && r.Intn(6) == 0 {
			ops = append(ops, Op{K: "GroupAddMember", E: es[0], Gs: some})
			some = nil
		}
	}
	if len(some) > 0 {
		ops = append(ops, Op{K: "GroupAddMember", E: es[0], Gs: some})
	}
	// Each capability is held by few of the groups.
	for _, k := range allCaps {
		if r.Intn(5) > 0 {
			ops = append(ops, Op{K: "SystemCapabilities", T: oneOf(r, gs[1:]), Act: actADD, Cap: k})
		}
	}
	for i := r.Intn(30); i > 0; i-- {
		a, b := r.Intn(ng), r.Intn(ng)
		if a != b {
			// From the later to the earlier, so there is no cycle.
			if a < b {
				a, b = b, a
			}
			act := ruleINC
			if r.Intn(4) == 0 {
				act = ruleEXC
			}
			ops = append(ops, Op{K: "GroupUpdateRules", G: gs[a], T: gs[b], Act: act})
		}
	}
	// One has a rule for most of the others.
	if !ents && r.Intn(2) == 0 {
		act := oneOf(r, []int32{ruleINC, ruleEXC})
		for _, b := range r.Perm(ng - 1) {
			if r.Intn(8) > 0 {
				ops = append(ops, Op{K: "GroupUpdateRules", G: gs[ng-1], T: gs[b], Act: act})
			}
		}
	}
	return ops, es, gs
}

// crowdCheck runs histories that begin so.
func crowdCheck(c *Ctx, n, length int, kinds []bool, w GenW, base EngineCfg) {
	base.Name += "-crowd"
	c.Cases(base.Name, n, func(i int, r *rand.Rand) {
		k := base
		k.World.Backend = []string{"memory", "memory", "filesystem", "bitcask"}[i%4]
		var es, gs []string
		k.Setup, es, gs = crowdOps(r, oneOf(r, kinds))
		g := newGen(r, w, 0, 0)
		// Some names that are free, and requests aimed at any of them.
		g.E, g.G = append([]string{"x0", "x1", "x2"}, es...), append([]string{"y0", "y1", "y2"}, gs...)
		g.Exist, g.Sec = 90, []string{"s"}
		k.Len, k.AuditEvery = length, len(k.Setup)+length
		if length > 8 {
			k.AuditEvery = (len(k.Setup) + length) / 4
		}
		k.Names = []string{"x0", "x1", "x2", "y0", "y1", "y2"}
		k.Gen = g.Next
		k.runCase(c, i, r)
	})
}
