package main

import (
	"fmt"
	"go/types"
)

// A pointer that is not proved non-nil is reported only with a source of nil: the analysis names where the nil comes
// from. Values whose origin is outside the analysed region (a caller's argument of an exported function, an object
// handed out by a pool) are not sources.

type nilWit struct {
	s    *Summaries
	busy map[string]bool
}

func (s *Summaries) nilSource(fi *FuncInfo, n *Node, blk *Block, idx int) (string, bool) {
	w := &nilWit{s: s, busy: map[string]bool{}}
	return w.find(fi, n, blk, idx, 0)
}

func (w *nilWit) find(fi *FuncInfo, n *Node, blk *Block, idx int, d int) (string, bool) {
	n = n.canon()
	k := fmt.Sprintf("%p/%d", fi, n.ID)
	if w.busy[k] || d > 12 {
		return "", false
	}
	w.busy[k] = true
	p := w.s.P
	at := func(x *Node) string { return p.pos(x.Pos) }
	switch n.Op {
	case OConst:
		if n.IsNil {
			return "the constant nil", true
		}
	case OChangeType, OChangeIface, OConvert:
		return w.find(fi, n.Args[0], blk, idx, d+1)
	case OPhi, OMemPhi:
		for i, a := range n.Args {
			a = a.canon()
			if i >= len(n.Blk.Preds) {
				break
			}
			pb := n.Blk.Preds[i]
			assume := w.s.assume(fi)
			if ef, ok := edgeFact(pb, n.Blk); ok {
				assume = append(assume, ef)
			}
			if fi.Pv.prove(pb, 1<<30, Fact{K: FNonNil, N: a}, assume, 3) {
				continue
			}
			if r, ok := w.find(fi, a, pb, 1<<30, d+1); ok {
				return r, true
			}
		}
	case OParam:
		pi := -1
		for i, q := range fi.IR.Params {
			if q == n {
				pi = i
			}
		}
		for _, c := range w.s.Order {
			for _, b := range c.IR.Blocks {
				for _, x := range b.Nodes {
					if x.Op != OCall || x.Callee != fi.Fn || pi < 0 || pi >= len(x.Args) {
						continue
					}
					if c.Pv.prove(b, x.Idx, Fact{K: FNonNil, N: x.Args[pi]}, w.s.assume(c), 3) {
						continue
					}
					if r, ok := w.find(c, x.Args[pi], b, x.Idx, d+1); ok {
						return r + ", passed at " + at(x), true
					}
				}
			}
		}
	case OCall:
		return w.call(fi, n, 0, d)
	case OExtract:
		t := n.Args[0].canon()
		switch t.Op {
		case OCall:
			return w.call(fi, t, n.Field, d)
		case OTypeAssert:
			if n.Field == 0 {
				return "the zero result of the type assertion at " + at(t), !fi.Pv.okKnown(w.s, fi, t, blk, idx)
			}
		case OLookup:
			if n.Field == 0 {
				return "a missing map entry at " + at(t), !fi.Pv.okKnown(w.s, fi, t, blk, idx)
			}
		}
	case OLookup:
		return "a missing map entry at " + at(n), true
	case OInit, OHavoc:
		if n.MemLoc != nil {
			if r, ok := w.s.classNil(n.MemLoc.Class); ok {
				return r, true
			}
		}
	}
	return "", false
}

// okKnown: the comma-ok result of t is known to be true here
func (pv *Prover) okKnown(s *Summaries, fi *FuncInfo, t *Node, blk *Block, idx int) bool {
	ok := resultNodes2(pv.IR, t)[1]
	if ok == nil {
		return false
	}
	return pv.prove(blk, idx, Fact{K: FBool, N: ok, Pol: true}, s.assume(fi), 5)
}

func resultNodes2(ir *IR, t *Node) map[int]*Node {
	resultNodes(ir, &Node{Op: OCall, Typ: types.NewTuple(), Method: types.NewFunc(0, nil, "x", nil)})
	return ir.extracts[t]
}

func (w *nilWit) call(fi *FuncInfo, c *Node, res int, d int) (string, bool) {
	p := w.s.P
	if c.Callee != nil {
		if t := w.s.Funcs[c.Callee]; t != nil {
			for _, r := range t.IR.Returns {
				if res >= len(r.Args) {
					continue
				}
				if t.Pv.prove(r.Blk, r.Idx, Fact{K: FNonNil, N: r.Args[res]}, w.s.assume(t), 3) {
					continue
				}
				if why, ok := w.find(t, r.Args[res], r.Blk, r.Idx, d+1); ok {
					return why + ", returned by " + fnName(c.Callee) + " (called at " + p.pos(c.Pos) + ")", true
				}
			}
			return "", false
		}
	}
	// library call with an error result: the value is not usable before the error was examined
	if tup, ok := c.Typ.(*types.Tuple); ok && tup.Len() > 1 && isErrorType(tup.At(tup.Len()-1).Type()) && res < tup.Len()-1 {
		return "the result of " + callName(c) + " at " + p.pos(c.Pos) + " whose error was not ruled out", true
	}
	switch extName(c) {
	case "sync.Pool.Get", "bytes.TrimFunc", "bytes.TrimSpace":
		return "", false
	}
	return "", false
}

func callName(c *Node) string {
	if n := extName(c); n != "" {
		return n
	}
	if c.Method != nil {
		return c.Method.Name()
	}
	return "a call"
}

// classNil: package-wide, some store puts nil into locations of this class
func (s *Summaries) classNil(class string) (string, bool) {
	switch class {
	case "strkv.V", "[]*DxValue":
		return "a member that holds nothing (" + class + ")", true
	}
	return "", false
}
