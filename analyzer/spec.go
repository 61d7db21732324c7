package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Case analysis over a byte: a function that dispatches on a byte is analysed once per value of that byte, with the
// branches the value excludes removed.

// specialise builds the IR of fn with the given nodes (by ID; node numbering is deterministic) fixed to constants.
func (p *Program) specialise(fn *ssa.Function, policy InlinePolicy, fix map[int]int64) *IR {
	ir := p.buildRaw(fn, policy)
	for _, n := range ir.allNodes() {
		if v, ok := fix[n.ID]; ok {
			n.repl = ir.intConst(v, n.Typ)
			n.Forced = true
		}
	}
	ir.foldAll()
	ir.settle()
	return ir
}

// settle promotes memory and removes branches decided by known memory contents until nothing changes.
func (ir *IR) settle() {
	ir.promote()
	for i := 0; i < 10 && ir.prune(); i++ {
		ir.memPhiIdx = nil
		ir.extracts = nil
		ir.foldAll()
		ir.promote()
	}
}

func (ir *IR) allNodes() []*Node {
	var out []*Node
	out = append(out, ir.Params...)
	out = append(out, ir.Free...)
	for _, b := range ir.Blocks {
		out = append(out, b.Nodes...)
	}
	return out
}

// scrutinees: byte-valued nodes that are compared with several constants, most compared first.
func scrutinees(ir *IR) []*Node {
	cnt := map[*Node]map[string]bool{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op != OBin || len(n.Args) != 2 {
				continue
			}
			x, y := n.Args[0].canon(), n.Args[1].canon()
			if x.Op == OConst {
				x, y = y, x
			}
			if y.Op != OConst || y.Const == nil || x.Op == OConst {
				continue
			}
			if bt, ok := x.Typ.Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint8 {
				continue
			}
			if cnt[x] == nil {
				cnt[x] = map[string]bool{}
			}
			cnt[x][y.Const.ExactString()] = true
		}
	}
	var out []*Node
	for n, c := range cnt {
		if len(c) >= 3 {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if len(cnt[out[i]]) != len(cnt[out[j]]) {
			return len(cnt[out[i]]) > len(cnt[out[j]])
		}
		return out[i].ID < out[j].ID
	})
	return out
}

func (o *Oblig) key(p *Program) string {
	return fmt.Sprintf("%d|%s|%s|%s", o.N.Pos, o.Kind, o.Desc, o.N.Frame.chain(p))
}

// forceIDs: the nodes of the IR that stand for value x.
func forceIDs(ir *IR, x *Node, v int64) map[int]int64 {
	out := map[int]int64{}
	x = x.canon()
	for _, n := range ir.allNodes() {
		if n.canon() == x && n.Typ != nil && types.Identical(n.Typ, x.Typ) {
			out[n.ID] = v
		}
	}
	return out
}

// caseSplit re-tries the failed obligations of fi once per value of a byte the function dispatches on.
func (s *Summaries) caseSplit(fi *FuncInfo, depth int) {
	failing := map[string]*Oblig{}
	for _, o := range fi.Obs {
		if !o.Proved && o.nilGoal == nil && o.Kind != "typeassert" {
			failing[o.key(s.P)] = o
		}
	}
	if len(failing) == 0 {
		return
	}
	for k, x := range scrutinees(fi.IR) {
		if k >= 2 || len(failing) == 0 {
			return
		}
		okAll := map[string]bool{}
		for key := range failing {
			okAll[key] = true
		}
		const chunk = 16
		for base := 0; base < 256; base += chunk {
			live := map[string]bool{}
			for key, ok := range okAll {
				if ok {
					live[key] = true
				}
			}
			if len(live) == 0 {
				break
			}
			var bad [chunk]map[string]bool
			parallel(chunk, func(k int) { bad[k] = s.caseOf(fi, x, base+k, live, depth) })
			for k := range bad {
				for key := range bad[k] {
					okAll[key] = false
					if failing[key].Why == "" {
						failing[key].Why = fmt.Sprintf("(with byte value %#x)", base+k)
					}
				}
			}
		}
		for key, ok := range okAll {
			if ok {
				failing[key].Proved = true
				failing[key].Why = "by cases over the dispatch byte"
				delete(failing, key)
			}
		}
	}
}

// caseOf tries the obligations `live` with x fixed to v; returns those that fail.
func (s *Summaries) caseOf(fi *FuncInfo, x *Node, v int, live map[string]bool, depth int) map[string]bool {
	bad := map[string]bool{}
	sf := &FuncInfo{Fn: fi.Fn, Pre: fi.Pre}
	sf.IR = s.P.specialise(fi.Fn, s.Policy, forceIDs(fi.IR, x, int64(v)))
	sf.Pv = newProver(sf.IR, s)
	var todo []*Oblig
	loops := false
	for _, o := range sf.obligations(s.P) {
		if live[o.key(s.P)] {
			todo = append(todo, o)
			for _, l := range sf.IR.Loops {
				if l.Header.dominates(o.N.Blk) {
					loops = true
				}
			}
		}
	}
	if len(todo) == 0 {
		return bad
	}
	if loops {
		s.genLoops(sf)
		s.checkLoops(sf)
	}
	for _, o := range todo {
		for _, g := range o.Goals {
			ok := false
			for d := 1; d <= depth && !ok; d += 2 {
				ok = sf.Pv.prove(o.N.Blk, o.N.Idx, g, s.assume(sf), d)
			}
			if !ok {
				bad[o.key(s.P)] = true
				break
			}
		}
	}
	return bad
}

var _ = constant.MakeInt64
