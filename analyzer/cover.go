package main

import (
	"go/constant"
	"go/token"
)

// Cover describes a loop that counts through a slice.
type Cover struct {
	Loop  *Loop
	If    *Node // header test
	Idx   *Node // the index of the element at hand, in the body
	Phi   *Node
	Slice *Node // the slice (argument of len), or nil when the bound is not a length
	Bound *Node
	Full  bool   // every element, one by one
	Why   string // why not
	In    bool   // the body is the true side of the test
}

func constIntOf(n *Node) (int64, bool) {
	n = n.canon()
	if n.Op != OConst || n.Const == nil {
		return 0, false
	}
	v := constant.ToInt(n.Const)
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

// stepOf: n = phi + k
func stepOf(n, phi *Node) (int64, bool) {
	n = n.canon()
	if n.Op != OBin || n.Tok != token.ADD && n.Tok != token.SUB {
		return 0, false
	}
	a, b := n.Args[0].canon(), n.Args[1].canon()
	if k, ok := constIntOf(b); ok && a == phi {
		if n.Tok == token.SUB {
			return -k, true
		}
		return k, true
	}
	if k, ok := constIntOf(a); ok && b == phi && n.Tok == token.ADD {
		return k, true
	}
	return 0, false
}

// covers finds the counting loops of a function.
func (ir *IR) covers() []*Cover {
	var out []*Cover
	for _, l := range ir.Loops {
		h := l.Header
		if len(h.Nodes) == 0 {
			continue
		}
		iff := h.Nodes[len(h.Nodes)-1]
		if iff.Op != OIf || len(h.Succs) != 2 || l.Blocks[h.Succs[0]] == l.Blocks[h.Succs[1]] {
			continue
		}
		in := l.Blocks[h.Succs[0]]
		c := iff.Args[0].canon()
		if c.Op != OBin || len(c.Args) != 2 {
			continue
		}
		for _, phi := range h.Nodes {
			if phi.Op != OPhi || !isIntType(phi.Typ) || len(phi.Args) != len(h.Preds) {
				continue
			}
			var init *Node
			step, okStep, first := int64(0), true, true
			for i, p := range h.Preds {
				if l.Blocks[p] {
					k, ok := stepOf(phi.Args[i], phi)
					if !ok || !first && k != step {
						okStep = false
					}
					step, first = k, false
				} else {
					a := phi.Args[i].canon()
					if init != nil && init != a {
						okStep = false
					}
					init = a
				}
			}
			if !okStep || first || init == nil {
				continue
			}
			// the tested value: the counter, or the counter one step on (range loops)
			for side := 0; side < 2; side++ {
				x, bound := c.Args[side].canon(), c.Args[1-side].canon()
				off := int64(0)
				if x != phi {
					k, ok := stepOf(x, phi)
					if !ok {
						continue
					}
					off = k
				}
				op := c.Tok
				if side == 1 {
					switch op {
					case token.LSS:
						op = token.GTR
					case token.GTR:
						op = token.LSS
					case token.LEQ:
						op = token.GEQ
					case token.GEQ:
						op = token.LEQ
					}
				}
				if !in {
					switch op {
					case token.LSS:
						op = token.GEQ
					case token.GTR:
						op = token.LEQ
					case token.LEQ:
						op = token.GTR
					case token.GEQ:
						op = token.LSS
					case token.EQL:
						op = token.NEQ
					case token.NEQ:
						op = token.EQL
					}
				}
				cv := &Cover{Loop: l, If: iff, Idx: x, Phi: phi, Bound: bound, In: in}
				lenOf := func(b *Node) *Node {
					b = b.canon()
					if b.Op == OBuiltin && b.Name == "len" {
						return b.Args[0].canon()
					}
					if b.Op == OCall && b.Callee != nil && len(b.Args) == 1 && b.Callee.Pkg != nil && b.Callee.Pkg.Pkg.Path() == "reflect" && (b.Callee.Name() == "Len" || b.Callee.Name() == "NumField") {
						return b.Args[0].canon()
					}
					if b.Op == OCall && b.Method != nil && len(b.Args) == 1 && (b.Method.Name() == "Len" || b.Method.Name() == "NumField") && b.Method.Pkg() != nil && b.Method.Pkg().Path() == "reflect" {
						return b.Args[0].canon()
					}
					return nil
				}
				i0, constInit := constIntOf(init)
				switch {
				case step > 0 && (op == token.LSS || op == token.NEQ):
					cv.Slice = lenOf(bound)
					if cv.Slice == nil {
						// len(x) - k
						if bound.Op == OBin && bound.Tok == token.SUB {
							if s := lenOf(bound.Args[0]); s != nil {
								cv.Slice = s
								cv.Why = "ends before the last element"
							}
						}
					}
					if cv.Slice == nil {
						cv.Why = "has a bound that is not a length"
					}
					switch {
					case cv.Why != "":
					case step != 1:
						cv.Why = "leaves out elements"
					case !constInit:
						cv.Why = "starts at a computed index"
					case i0+off != 0:
						cv.Why = "does not start with the first element"
					}
				case step > 0 && op == token.LEQ:
					// i <= len-1
					if bound.Op == OBin && bound.Tok == token.SUB {
						if k, ok := constIntOf(bound.Args[1]); ok {
							cv.Slice = lenOf(bound.Args[0])
							if k != 1 {
								cv.Why = "ends before the last element"
							}
						}
					}
					if cv.Slice == nil {
						continue
					}
					switch {
					case cv.Why != "":
					case step != 1:
						cv.Why = "leaves out elements"
					case !constInit || i0+off != 0:
						cv.Why = "does not start with the first element"
					}
				case step < 0 && (op == token.GEQ || op == token.GTR):
					b0, ok := constIntOf(bound)
					if !ok {
						continue
					}
					last := b0
					if op == token.GTR {
						last++
					}
					// counting down from len(x)-1 (or from len(x), using the counter less one)
					base, k := init, off
					if init.Op == OBin && init.Tok == token.SUB {
						if d, ok := constIntOf(init.Args[1]); ok {
							base, k = init.Args[0].canon(), off-d
						}
					}
					cv.Slice = lenOf(base)
					if cv.Slice == nil {
						continue
					}
					// for i := len(x); i > 0; i-- uses i-1
					if k == 0 && last == 1 {
						cv.Idx = nil
						k, last = -1, 0
					}
					switch {
					case step != -1:
						cv.Why = "leaves out elements"
					case last != 0:
						cv.Why = "ends before the first element"
					case k != -1:
						cv.Why = "does not start with the last element"
					}
				default:
					continue
				}
				cv.Full = cv.Why == ""
				out = append(out, cv)
				side = 2
			}
		}
	}
	return out
}
