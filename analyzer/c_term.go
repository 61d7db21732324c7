package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: every loop that decoding can execute has a measure that is bounded below and strictly decreases on every way
// round, and every recursive decode call works on strictly less input.

func init() {
	register("C02", (*Check).termination)
}

func (c *Check) termination() *Result {
	r := newResult()
	r.Min = 60
	r.Rules = []string{
		"for every loop in every function reachable from a decode entry point, a ranking expression over the loop's variables (remaining length, bound minus counter, counter minus bound) is proved non-negative and strictly smaller on every back edge, lexicographically if needed; range loops are bounded by the language",
		"for every call inside a cycle of the call graph of functions that take input bytes, the length of the input passed on is proved no larger than the caller's, and every cycle has a call where it is proved strictly smaller",
	}
	r.Assumptions = []string{"the loops of the dependency and of the standard library terminate", "trees are finite and acyclic", "64-bit counters do not wrap"}
	s := newSummaries(c.P, inlineUpTo(60))
	s.Joins = true
	s.solve()
	reach := c.P.reachable(c.P.entries(isDecodeEntry))
	for _, fi := range s.Order {
		if !reach[fi.Fn] {
			continue
		}
		r.Functions[fnName(fi.Fn)] = true
		for g := range fi.IR.Inlined {
			r.Functions[fnName(g)] = true
		}
	}
	type lres struct {
		n    int
		bad  []Finding
		smpl []string
		kind map[string]int
	}
	var list []*FuncInfo
	for _, fi := range s.Order {
		if reach[fi.Fn] {
			list = append(list, fi)
		}
	}
	out := make([]lres, len(list))
	parallel(len(list), func(i int) {
		fi := list[i]
		o := &out[i]
		o.kind = map[string]int{}
		for _, l := range fi.IR.Loops {
			o.n++
			how, why := s.loopEnds(fi, l)
			if why == "" {
				o.kind["loop_"+strings.Fields(how)[0]]++
				o.smpl = append(o.smpl, c.P.pos(loopPos(l))+" "+fnName(fi.Fn)+": "+how)
			} else {
				o.bad = append(o.bad, Finding{Rule: "loop-progress", Where: c.P.pos(loopPos(l)), Func: loopFunc(c.P, fi, l), Detail: why})
			}
		}
	})
	for i := range out {
		r.Analysed += out[i].n
		for k, v := range out[i].kind {
			r.Counts[k] += v
		}
		for _, f := range out[i].bad {
			r.Counts["loop_open"]++
			r.Findings = append(r.Findings, f)
		}
		for _, x := range out[i].smpl {
			r.sample(x)
		}
	}
	c.recursion(s, reach, r)
	return r
}

func loopPos(l *Loop) (ps token.Pos) {
	for _, n := range l.Header.Nodes {
		if n.Pos.IsValid() {
			return n.Pos
		}
	}
	var bs []*Block
	for b := range l.Blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].ID < bs[j].ID })
	for _, b := range bs {
		for _, n := range b.Nodes {
			if n.Pos.IsValid() {
				return n.Pos
			}
		}
	}
	return
}

func loopFunc(p *Program, fi *FuncInfo, l *Loop) string {
	for b := range l.Blocks {
		for _, n := range b.Nodes {
			if b == l.Header && n.Frame != nil {
				return n.Frame.chain(p)
			}
		}
	}
	return fnName(fi.Fn)
}

func (s *Summaries) loopEnds(fi *FuncInfo, l *Loop) (how, why string) {
	ir, pv := fi.IR, fi.Pv
	h := l.Header
	var latches []int
	for i, p := range h.Preds {
		if l.Blocks[p] {
			latches = append(latches, i)
		}
	}
	// range over a map, string or channel-free iterator
	for b := range l.Blocks {
		for _, n := range b.Nodes {
			if n.Op == ONext {
				all := true
				for _, i := range latches {
					if !n.Blk.dominates(h.Preds[i]) {
						all = false
					}
				}
				if all && n.Blk.loop == l {
					return "range", ""
				}
			}
		}
	}
	// a loop around an external read that leaves on every error, end of file included
	for b := range l.Blocks {
		for _, n := range b.Nodes {
			if n.Op != OCall || !strings.HasSuffix(extName(n), ".Read") && !strings.HasSuffix(extName(n), ".ReadAt") {
				continue
			}
			res := resultNodes(ir, n)
			e := res[1]
			if e == nil || !isErrorType(e.Typ) {
				continue
			}
			all := true
			for _, i := range latches {
				p := h.Preds[i]
				assume := s.assume(fi)
				if ef, ok := edgeFact(p, h); ok {
					assume = append(assume, ef)
				}
				if !n.Blk.dominates(p) || !pv.prove(p, 1<<30, Fact{K: FNil, N: e}, assume, 4) {
					all = false
				}
			}
			if all {
				return "read", ""
			}
		}
	}
	exits := false
	for b := range l.Blocks {
		for _, x := range b.Succs {
			if !l.Blocks[x] {
				exits = true
			}
		}
		for _, n := range b.Nodes {
			if n.Op == OReturn || n.Op == OPanic {
				exits = true
			}
		}
	}
	if !exits {
		return "", "the loop has no exit"
	}
	var ints, lens []*Node
	for _, ph := range pv.phisOf(h) {
		if len(ph.Args) != len(h.Preds) {
			continue
		}
		switch {
		case isIntType(ph.Typ):
			ints = append(ints, ph)
		case isLenType(ph.Typ):
			lens = append(lens, ph)
		}
	}
	avail := func(n *Node) bool {
		n = n.canon()
		if n.Op == OConst || n.Op == OParam || n.Op == OFreeVar || n.Op == OInit {
			return true
		}
		return n.Blk != nil && n.Blk != h && n.Blk.dominates(h) && !l.Blocks[n.Blk]
	}
	okLin := func(x Lin) bool {
		for a := range x.M {
			n := a.N
			if avail(n) || n.Blk == h && (n.Op == OPhi || n.Op == OMemPhi) {
				continue
			}
			return false
		}
		return !x.isConst()
	}
	seen := map[string]bool{}
	var ms []Lin
	add := func(x Lin) {
		k := x.String()
		if !seen[k] && okLin(x) {
			seen[k] = true
			ms = append(ms, x)
		}
	}
	for _, p := range lens {
		add(pv.lenOf(p))
	}
	bounds := []Lin{linC(0)}
	for b := range l.Blocks {
		for _, n := range b.Nodes {
			switch n.Op {
			case OBin:
				switch n.Tok {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					if isIntType(n.Args[0].Typ) {
						bounds = append(bounds, pv.lin(n.Args[0]), pv.lin(n.Args[1]))
					}
				}
			case OIndexAddr, OIndex, OSlice:
				if isLenType(n.Args[0].Typ) {
					bounds = append(bounds, pv.lenOf(n.Args[0]))
				}
			case OBuiltin:
				if isLenBuiltin(n) {
					bounds = append(bounds, pv.lenOf(n.Args[0]))
				}
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].String() < bounds[j].String() })
	for _, p := range ints {
		for _, b := range bounds {
			add(b.add(pv.lin(p), -1))
			add(pv.lin(p).add(b, -1))
		}
		for _, q := range ints {
			if p != q {
				add(pv.lin(p).add(pv.lin(q), -1))
			}
		}
	}
	_ = ir
	// lexicographic search
	rest := latches
	var used []string
	for len(rest) > 0 {
		progress := false
		for _, m := range ms {
			var left []int
			bad := false
			for _, i := range rest {
				p := h.Preds[i]
				assume := s.assume(fi)
				if ef, ok := edgeFact(p, h); ok {
					assume = append(assume, ef)
				}
				nm := pv.substFact(Fact{K: FLin, L: m}, h, i).L
				d := m.add(nm, -1)
				strict := Fact{K: FLin, L: d.plus(-1)}
				if pv.prove(p, 1<<30, Fact{K: FLin, L: m}, assume, 4) && pv.prove(p, 1<<30, strict, assume, 5) {
					continue
				}
				if pv.prove(p, 1<<30, Fact{K: FLin, L: d}, assume, 4) {
					left = append(left, i)
					continue
				}
				bad = true
				break
			}
			if !bad && len(left) < len(rest) {
				used = append(used, m.String())
				rest = left
				progress = true
				break
			}
		}
		if !progress {
			return "", fmt.Sprintf("no measure over the loop's variables is bounded and strictly smaller on every way round (tried %d)", len(ms))
		}
	}
	return "measure " + strings.Join(used, ", then "), ""
}

// recursion: the byte input handed down inside a call-graph cycle shrinks.
func (c *Check) recursion(s *Summaries, reach map[*ssa.Function]bool, r *Result) {
	idx := map[*FuncInfo]int{}
	var nodes []*FuncInfo
	for _, fi := range s.Order {
		if reach[fi.Fn] {
			idx[fi] = len(nodes)
			nodes = append(nodes, fi)
		}
	}
	type edge struct {
		from, to *FuncInfo
		call     *Node
	}
	succ := map[*FuncInfo][]edge{}
	for _, fi := range nodes {
		for _, b := range fi.IR.Blocks {
			for _, n := range b.Nodes {
				if t := s.isInternalTarget(n); t != nil && reach[t.Fn] {
					succ[fi] = append(succ[fi], edge{fi, t, n})
				}
			}
		}
	}
	comp := scc(nodes, func(fi *FuncInfo) []*FuncInfo {
		var out []*FuncInfo
		for _, e := range succ[fi] {
			out = append(out, e.to)
		}
		return out
	})
	inputs := s.inputParams(nodes)
	input := func(fi *FuncInfo) *Node {
		for _, p := range fi.IR.Params {
			if inputs[p] {
				return p
			}
		}
		return nil
	}
	for _, cm := range comp {
		in := map[*FuncInfo]bool{}
		for _, fi := range cm {
			in[fi] = true
		}
		cyclic := len(cm) > 1
		for _, e := range succ[cm[0]] {
			if e.to == cm[0] {
				cyclic = true
			}
		}
		takes := 0
		for _, fi := range cm {
			if input(fi) != nil {
				takes++
			}
		}
		if !cyclic || takes == 0 {
			continue
		}
		weak := map[*FuncInfo][]edge{}
		for _, fi := range cm {
			for _, e := range succ[fi] {
				if !in[e.to] {
					continue
				}
				r.count("recursive_call")
				p, q := input(fi), input(e.to)
				if p == nil || q == nil {
					r.bad(c.P, "recursion-shrinks", e.call.Pos, e.call.Frame.chain(c.P), "the recursive call to %s does not pass the input on as a byte slice", fnName(e.to.Fn))
					continue
				}
				qi := -1
				for i, x := range e.to.IR.Params {
					if x == q {
						qi = i
					}
				}
				if qi < 0 || qi >= len(e.call.Args) {
					continue
				}
				d := fi.Pv.lenOf(p).add(fi.Pv.lenOf(e.call.Args[qi]), -1)
				if fi.Pv.prove(e.call.Blk, e.call.Idx, Fact{K: FLin, L: d.plus(-1)}, s.assume(fi), 5) {
					r.Counts["strictly_smaller"]++
					continue
				}
				if fi.Pv.prove(e.call.Blk, e.call.Idx, Fact{K: FLin, L: d}, s.assume(fi), 5) {
					weak[fi] = append(weak[fi], e)
					continue
				}
				r.bad(c.P, "recursion-shrinks", e.call.Pos, e.call.Frame.chain(c.P), "the nested decode %s may be given more input than its caller has", fnName(e.to.Fn))
			}
		}
		wc := scc(cm, func(fi *FuncInfo) []*FuncInfo {
			var out []*FuncInfo
			for _, e := range weak[fi] {
				out = append(out, e.to)
			}
			return out
		})
		for _, w := range wc {
			win := map[*FuncInfo]bool{}
			for _, fi := range w {
				win[fi] = true
			}
			for _, fi := range w {
				for _, e := range weak[fi] {
					if win[e.to] {
						r.bad(c.P, "recursion-shrinks", e.call.Pos, e.call.Frame.chain(c.P), "the nested decode %s is not given strictly less input, so the recursion need not end", fnName(e.to.Fn))
					}
				}
			}
		}
	}
}

// inputParams: the byte-slice parameters that receive (part of) the bytes given to a decode entry point.
func (s *Summaries) inputParams(nodes []*FuncInfo) map[*Node]bool {
	in := map[*Node]bool{}
	class := map[string]bool{}
	for _, fi := range nodes {
		if isDecodeEntry(fi.Fn) {
			for _, p := range fi.IR.Params {
				if isByteSlice(p.Typ) {
					in[p] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fi := range nodes {
			memo := map[*Node]int{}
			var tainted func(n *Node) bool
			tainted = func(n *Node) bool {
				n = n.canon()
				if !isByteSlice(n.Typ) {
					if _, tup := n.Typ.(*types.Tuple); !tup {
						return false
					}
				}
				if v, ok := memo[n]; ok {
					return v == 1
				}
				memo[n] = 0
				r := in[n]
				if n.MemLoc != nil && class[n.MemLoc.Class] {
					r = true
				}
				switch n.Op {
				case OPhi, OMemPhi, OCall:
					for _, a := range n.Args {
						r = r || tainted(a)
					}
				case OSlice, OExtract, OChangeType:
					r = r || tainted(n.Args[0])
				}
				if r {
					memo[n] = 1
				}
				return r
			}
			for _, b := range fi.IR.Blocks {
				for _, n := range b.Nodes {
					if n.Op == OStore && isByteSlice(n.Args[1].Typ) {
						if l := fi.IR.loc(n.Args[0]); l.Class != "" && strings.Contains(l.Class, ".") && !class[l.Class] && tainted(n.Args[1]) {
							class[l.Class] = true
							changed = true
						}
					}
					if t := s.isInternalTarget(n); t != nil {
						for i, a := range n.Args {
							if i < len(t.IR.Params) && isByteSlice(t.IR.Params[i].Typ) && !in[t.IR.Params[i]] && tainted(a) {
								in[t.IR.Params[i]] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
	return in
}

func scc(nodes []*FuncInfo, succ func(*FuncInfo) []*FuncInfo) [][]*FuncInfo {
	index := map[*FuncInfo]int{}
	low := map[*FuncInfo]int{}
	on := map[*FuncInfo]bool{}
	var st []*FuncInfo
	var out [][]*FuncInfo
	n := 0
	member := map[*FuncInfo]bool{}
	for _, x := range nodes {
		member[x] = true
	}
	var visit func(v *FuncInfo)
	visit = func(v *FuncInfo) {
		n++
		index[v], low[v] = n, n
		st = append(st, v)
		on[v] = true
		for _, w := range succ(v) {
			if !member[w] {
				continue
			}
			if index[w] == 0 {
				visit(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && index[w] < low[v] {
				low[v] = index[w]
			}
		}
		if low[v] == index[v] {
			var c []*FuncInfo
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			out = append(out, c)
		}
	}
	for _, v := range nodes {
		if index[v] == 0 {
			visit(v)
		}
	}
	return out
}

