package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Constant folding and removal of branches that cannot be taken. Applied to the inlined program, so a callee that
// is given a constant argument keeps only the part that argument selects.

func intBits(t types.Type) (bits int, unsigned, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	unsigned = b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, unsigned, true
	case types.Int16, types.Uint16:
		return 16, unsigned, true
	case types.Int32, types.Uint32:
		return 32, unsigned, true
	case types.UntypedInt, types.UntypedRune:
		return 0, false, false
	}
	return 64, unsigned, true
}

// wrapInt reduces an integer constant to the range of t.
func wrapInt(v constant.Value, t types.Type) constant.Value {
	bits, uns, ok := intBits(t)
	if !ok || v.Kind() != constant.Int {
		return v
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	m := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	// AND with a mask is the two's complement reduction also for negative numbers
	r := constant.BinaryOp(v, token.AND, m)
	if !uns {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

// foldNode returns the constant (or simpler) node n is equal to, or nil.
func (ir *IR) foldNode(n *Node) *Node {
	boolNode := func(b bool) *Node { return ir.constNode(ssa.NewConst(constant.MakeBool(b), n.Typ)) }
	switch n.Op {
	case OBin:
		a, b := n.Args[0].canon(), n.Args[1].canon()
		ac, bc := a.Op == OConst, b.Op == OConst
		if n.Tok == token.EQL || n.Tok == token.NEQ {
			if ac && bc && a.IsNil && b.IsNil && isPtrLike(a.Typ) {
				return boolNode(n.Tok == token.EQL)
			}
			if ac && a.IsNil {
				a, b, ac, bc = b, a, bc, ac
			}
			if bc && b.IsNil && !ac {
				switch a.Op {
				case OAlloc, OMakeSlice, OMakeMap, OMakeClosure, OFunc, OMakeIface, OFieldAddr, OGlobal:
					return boolNode(n.Tok == token.NEQ)
				}
			}
		}
		if !ac || !bc || a.Const == nil || b.Const == nil {
			return nil
		}
		x, y := a.Const, b.Const
		switch n.Tok {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.Kind() == constant.Bool || y.Kind() == constant.Bool {
				if x.Kind() != y.Kind() || n.Tok != token.EQL && n.Tok != token.NEQ {
					return nil
				}
			}
			return boolNode(constant.Compare(x, n.Tok, y))
		case token.SHL, token.SHR:
			k, ok := constant.Uint64Val(y)
			if !ok || k > 64 || !isIntType(n.Typ) {
				return nil
			}
			return ir.constNode(ssa.NewConst(wrapInt(constant.Shift(constant.ToInt(x), n.Tok, uint(k)), n.Typ), n.Typ))
		}
		if !isIntType(n.Typ) {
			return nil
		}
		x, y = constant.ToInt(x), constant.ToInt(y)
		if x.Kind() != constant.Int || y.Kind() != constant.Int {
			return nil
		}
		var r constant.Value
		switch n.Tok {
		case token.QUO:
			if constant.Sign(y) == 0 {
				return nil
			}
			r = constant.BinaryOp(x, token.QUO_ASSIGN, y)
		case token.REM:
			if constant.Sign(y) == 0 {
				return nil
			}
			r = constant.BinaryOp(x, token.REM, y)
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			r = constant.BinaryOp(x, n.Tok, y)
		default:
			return nil
		}
		return ir.constNode(ssa.NewConst(wrapInt(r, n.Typ), n.Typ))
	case OUn:
		a := n.Args[0].canon()
		if a.Op != OConst || a.Const == nil {
			return nil
		}
		switch n.Tok {
		case token.NOT:
			if a.Const.Kind() == constant.Bool {
				return boolNode(!constant.BoolVal(a.Const))
			}
		case token.SUB:
			if isIntType(n.Typ) && a.Const.Kind() == constant.Int {
				return ir.constNode(ssa.NewConst(wrapInt(constant.UnaryOp(token.SUB, a.Const, 0), n.Typ), n.Typ))
			}
		}
	case OConvert, OChangeType:
		a := n.Args[0].canon()
		if a.Op != OConst || a.Const == nil {
			return nil
		}
		if isIntType(n.Typ) && isIntType(a.Typ) {
			return ir.constNode(ssa.NewConst(wrapInt(constant.ToInt(a.Const), n.Typ), n.Typ))
		}
	}
	return nil
}

// prune removes the branches whose condition is a constant; reports whether something was removed.
func (ir *IR) prune() bool {
	changed := false
	for _, b := range ir.Blocks {
		if len(b.Nodes) == 0 {
			continue
		}
		t := b.Nodes[len(b.Nodes)-1]
		if t.Op != OIf || len(b.Succs) != 2 {
			continue
		}
		c := t.Args[0].canon()
		if c.Op != OConst || c.Const == nil || c.Const.Kind() != constant.Bool {
			continue
		}
		keep, drop := b.Succs[0], b.Succs[1]
		dropIdx := 1
		if !constant.BoolVal(c.Const) {
			keep, drop = drop, keep
			dropIdx = 0
		}
		// which predecessor slot of drop belongs to this edge
		slot, cnt := -1, 0
		for i, p := range drop.Preds {
			if p == b {
				if keep == drop && cnt < dropIdx {
					cnt++
					continue
				}
				slot = i
				break
			}
		}
		if slot >= 0 {
			for _, n := range drop.Nodes {
				if n.Op == OPhi && len(n.Args) == len(drop.Preds) {
					n.Args = append(append([]*Node{}, n.Args[:slot]...), n.Args[slot+1:]...)
				}
			}
			drop.Preds = append(append([]*Block{}, drop.Preds[:slot]...), drop.Preds[slot+1:]...)
		}
		b.Succs = []*Block{keep}
		t.Op = OJump
		t.Args = nil
		changed = true
	}
	if changed {
		ir.finish()
	}
	return changed
}

// foldAll folds constants over the whole program until nothing changes (memory contents are not consulted).
func (ir *IR) foldAll() {
	for round := 0; round < 20; round++ {
		for again := true; again; {
			again = false
			for _, b := range ir.Blocks {
				for _, n := range b.Nodes {
					if n.repl != nil {
						continue
					}
					if n.Op == OPhi {
						var one *Node
						same := true
						for _, a := range n.Args {
							a = a.canon()
							if a == n {
								continue
							}
							if one == nil {
								one = a
							} else if one != a {
								same = false
							}
						}
						if same && one != nil && one.Op == OConst {
							n.repl = one
							again = true
						}
						continue
					}
					if r := ir.foldNode(n); r != nil && r != n {
						n.repl = r
						again = true
					}
				}
			}
		}
		if !ir.prune() {
			return
		}
	}
}
