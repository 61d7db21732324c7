package main

import (
	"golang.org/x/tools/go/ssa"
)

// C01, C03, C04: every instruction that can panic, in every function reachable from the property's entry points, is an
// obligation: the operands must be proved to be in range on every path.

func init() {
	register("C01", func(c *Check) *Result {
		return c.panics(isDecodeEntry, 900)
	})
	register("C03", func(c *Check) *Result {
		return c.panics(func(f *ssa.Function) bool {
			return isExported(f) && !isDecodeEntry(f) && !isGoValueEntry(f)
		}, 1200)
	})
	register("C04", func(c *Check) *Result {
		return c.panics(isGoValueEntry, 900)
	})
}

func (c *Check) solved() *Summaries {
	s := newSummaries(c.P, inlineUpTo(60))
	s.solve()
	return s
}

func (c *Check) panics(sel func(*ssa.Function) bool, min int) *Result {
	r := newResult()
	r.Min = min
	r.Rules = []string{"every index, slice, make, division, shift, type assertion, map store, nil dereference and length-requiring library call reachable from the entry points is proved safe from the facts that dominate it (linear arithmetic over lengths and counters, inferred loop invariants and function summaries); a pointer dereference is reported only together with a source of nil that reaches it"}
	r.Assumptions = []string{"value trees are trees (no cycles, no sharing of a node between two parents)", "distinct pointer parameters denote distinct objects", "64-bit arithmetic on lengths does not wrap", "callers do not pass nil receivers", "a pointer that cannot be proved non-nil and for which no nil source is found is not reported"}
	s := c.solved()
	s.dischargeAll(5)
	reach := c.P.reachable(c.P.entries(sel))
	for _, fi := range s.Order {
		if !reach[fi.Fn] {
			continue
		}
		r.Functions[fnName(fi.Fn)] = true
		for g := range fi.IR.Inlined {
			r.Functions[fnName(g)] = true
		}
		for _, o := range fi.Obs {
			r.count(o.Kind)
			if o.NoSource {
				r.Counts["nil_without_source"]++
			}
			if !o.Proved {
				r.bad(c.P, "no-panic/"+o.Kind, o.N.Pos, o.N.Frame.chain(c.P), "%s: cannot establish %s %s", o.Desc, o.Failed, o.Why)
			} else if len(o.Goals) > 0 && o.Kind != "nil" && o.N.ID%97 == 0 {
				r.sample(c.P.pos(o.N.Pos) + " " + o.Kind + ": " + o.Goals[len(o.Goals)-1].String())
			}
		}
	}
	return r
}
