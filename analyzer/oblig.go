package main

import (
	"golang.org/x/tools/go/ssa"
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Run-time panic obligations of the IR.

type Oblig struct {
	N      *Node
	Kind   string
	Goals  []Fact
	Desc   string
	Proved bool
	Failed string
	NoSource bool   // not proved, but no source of nil exists
	Why    string
	nilGoal *Node
}

func (fi *FuncInfo) obligations(p *Program) []*Oblig {
	pv := fi.Pv
	var out []*Oblig
	add := func(n *Node, kind, desc string, gs ...Fact) {
		out = append(out, &Oblig{N: n, Kind: kind, Desc: desc, Goals: gs})
	}
	ge := func(l Lin) Fact { return Fact{K: FLin, L: l} }
	nonnil := func(n, base *Node, what string) {
		if inherentNonNil(base.canon()) {
			return
		}
		add(n, "nil", what, Fact{K: FNonNil, N: base})
	}
	for _, b := range fi.IR.Blocks {
		for _, n := range b.Nodes {
			switch n.Op {
			case OIndexAddr, OIndex:
				if _, isArrPtr := n.Args[0].Typ.Underlying().(*types.Pointer); isArrPtr {
					nonnil(n, n.Args[0], "array pointer")
				}
				i := pv.lin(n.Args[1])
				add(n, "index", "index within length", ge(i), ge(pv.lenOf(n.Args[0]).add(i, -1).plus(-1)))
			case OLookup:
				if isString(n.Args[0].Typ) {
					i := pv.lin(n.Args[1])
					add(n, "index", "index within length", ge(i), ge(pv.lenOf(n.Args[0]).add(i, -1).plus(-1)))
				}
			case OSlice:
				if _, isp := n.Args[0].Typ.Underlying().(*types.Pointer); isp {
					nonnil(n, n.Args[0], "array pointer")
				}
				lo, hi, k := linC(0), pv.lenOf(n.Args[0]), 1
				var gs []Fact
				if n.Lo {
					lo = pv.lin(n.Args[k])
					k++
					gs = append(gs, ge(lo))
				}
				if n.Hi {
					hi = pv.lin(n.Args[k])
					k++
					gs = append(gs, ge(pv.capOf(n.Args[0]).add(hi, -1)))
				}
				gs = append(gs, ge(hi.add(lo, -1)))
				if n.Max {
					mx := pv.lin(n.Args[k])
					gs = append(gs, ge(pv.capOf(n.Args[0]).add(mx, -1)), ge(mx.add(hi, -1)))
				}
				var g2 []Fact
				for _, g := range gs {
					if !(g.L.isConst() && g.L.C >= 0) {
						g2 = append(g2, g)
					}
				}
				if len(g2) > 0 {
					add(n, "slice", "slice bounds in range", g2...)
				}
			case OFieldAddr:
				nonnil(n, n.Args[0], "field of nil pointer")
			case OLoad:
				nonnil(n, n.Args[0], "load through nil pointer")
			case OStore:
				nonnil(n, n.Args[0], "store through nil pointer")
			case OMapUpdate:
				add(n, "nilmap", "store in nil map", Fact{K: FNonNil, N: n.Args[0]})
			case OTypeAssert:
				if !n.CommaOk {
					add(n, "typeassert", "type assertion cannot fail", Fact{K: FBool, N: n, Pol: true})
				}
			case OBin:
				if (n.Tok == token.QUO || n.Tok == token.REM) && isIntType(n.Typ) {
					d := pv.lin(n.Args[1])
					if !d.isConst() || d.C == 0 {
						add(n, "div", "division by zero", Fact{K: FNeq, L: d})
					}
				}
				if (n.Tok == token.SHL || n.Tok == token.SHR) && !isUnsigned(n.Args[1].Typ) {
					d := pv.lin(n.Args[1])
					if !d.isConst() || d.C < 0 {
						add(n, "shift", "negative shift count", ge(d))
					}
				}
			case OMakeSlice:
				l, c := pv.lin(n.Args[0]), pv.lin(n.Args[1])
				gs := []Fact{ge(l), ge(c.add(l, -1)), ge(linC(1 << 48).add(c.scale(elemSize(n.Typ)), -1))}
				if l.isConst() && c.isConst() && l.C >= 0 && c.C >= l.C {
					break
				}
				add(n, "make", "make with a valid size", gs...)
			case OPanic:
				add(n, "panic", "explicit panic is unreachable", Fact{K: FLin, L: linC(-1)})
			case OCall:
				if n.Method != nil {
					add(n, "nil", "method of nil interface", Fact{K: FNonNil, N: n.Args[0]})
					break
				}
				if n.Name == "dynamic" {
					nonnil(n, n.Args[0], "call of nil function")
					break
				}
				if n.Callee != nil && !p.internal(n.Callee) {
					name := extName(n)
					if r := n.Callee.Signature.Recv(); r != nil {
						if _, isp := r.Type().Underlying().(*types.Pointer); isp && len(n.Args) > 0 {
							nonnil(n, n.Args[0], "method of nil pointer")
						}
					}
					if strings.HasPrefix(name, "binary.") {
						k := int64(0)
						m := n.Callee.Name()
						switch {
						case strings.HasSuffix(m, "16"):
							k = 2
						case strings.HasSuffix(m, "32"):
							k = 4
						case strings.HasSuffix(m, "64"):
							k = 8
						}
						if k > 0 && (strings.HasPrefix(m, "Uint") || strings.HasPrefix(m, "Put")) {
							for _, a := range n.Args {
								if isByteSlice(a.Typ) {
									add(n, "extern", fmt.Sprintf("%s needs %d bytes", name, k), ge(pv.lenOf(a).plus(-k)))
								}
							}
						}
					}
					if name == "strings.Repeat" || name == "bytes.Repeat" {
						add(n, "extern", name+" needs a non-negative count", ge(pv.lin(n.Args[1])))
					}
					if name == "bytes.NewReader" {
						break
					}
				}
			}
		}
	}
	return out
}

func (s *Summaries) discharge(fi *FuncInfo, depth int) {
	fi.Obs = fi.obligations(s.P)
	for _, o := range fi.Obs {
		o.Proved = true
		for _, g := range o.Goals {
			if o.Kind == "typeassert" {
				if !fi.Pv.typeKnown(o.N) {
					o.Proved = false
					o.Failed = "dynamic type not established"
				}
				continue
			}
			ok := false
			for d := 1; d <= depth && !ok; d += 2 {
				ok = fi.Pv.prove(o.N.Blk, o.N.Idx, g, s.assume(fi), d)
			}
			if !ok && g.K != FNonNil {
				fi.Pv.bigBudget = 4000
				ok = fi.Pv.prove(o.N.Blk, o.N.Idx, g, s.assume(fi), depth+2)
				fi.Pv.bigBudget = 0
			}
			if !ok && g.K == FNonNil {
				o.nilGoal = g.N // decided by witnesses()
				continue
			}
			if !ok {
				o.Proved = false
				o.Failed = g.String()
				break
			}
		}
	}
}

// typeKnown: the asserted operand was built from, or tested for, that very type on every path.
func (pv *Prover) typeKnown(n *Node) bool {
	var ok func(x *Node, d int) bool
	ok = func(x *Node, d int) bool {
		x = x.canon()
		if d > 8 {
			return false
		}
		switch x.Op {
		case OMakeIface:
			return types.Identical(x.Args[0].Typ, n.Typ)
		case OChangeIface:
			return ok(x.Args[0], d+1)
		case OPhi:
			for _, a := range x.Args {
				if !ok(a, d+1) {
					return false
				}
			}
			return true
		case OCall:
			if extName(x) == "sync.Pool.Get" {
				return pv.poolType(x, n.Typ)
			}
		}
		return false
	}
	if ok(n.Args[0], 0) || pv.reflectType(n) {
		return true
	}
	// a dominating comma-ok assertion
	for _, f := range func() []Fact { fs, _ := pv.gather(n.Blk, n.Idx, nil); return fs }() {
		if f.K == FBool && f.Pol {
			x := f.N.canon()
			if x.Op == OExtract && x.Field == 1 {
				t := x.Args[0].canon()
				if t.Op == OTypeAssert && t.Args[0].canon() == n.Args[0].canon() {
					tt := t.Typ.(*types.Tuple).At(0).Type()
					if types.Identical(tt, n.Typ) {
						return true
					}
				}
			}
		}
	}
	return false
}

// reflectType: the dynamic type was tested through reflection (Type() == T, Implements(I)), or the value comes out of
// a sync.Map that only ever holds that type.
func (pv *Prover) reflectType(n *Node) bool {
	x := n.Args[0].canon()
	for x.Op == OChangeIface {
		x = x.Args[0].canon()
	}
	if x.Op == OExtract && x.Field == 0 {
		if c := x.Args[0].canon(); c.Op == OCall && extName(c) == "sync.Map.Load" {
			return pv.mapType(c, n.Typ)
		}
	}
	// the reflect.Values that hold x
	holds := func(v *Node) bool {
		v = v.canon()
		if x.Op == OCall && extName(x) == "reflect.Value.Interface" && x.Args[0].canon() == v {
			return true
		}
		if v.Op == OCall && extName(v) == "reflect.ValueOf" {
			y := v.Args[0].canon()
			for y.Op == OChangeIface {
				y = y.Args[0].canon()
			}
			return y == x
		}
		return false
	}
	typeOf := func(t *Node) *Node { // the reflect.Value (or value) whose type t is
		t = t.canon()
		if t.Op == OCall && extName(t) == "reflect.Value.Type" {
			return t.Args[0]
		}
		return nil
	}
	fs, _ := pv.gather(n.Blk, n.Idx, nil)
	for _, f := range fs {
		if f.K != FBool {
			continue
		}
		c := f.N.canon()
		pol := f.Pol
		for c.Op == OUn && c.Tok == token.NOT {
			c, pol = c.Args[0].canon(), !pol
		}
		if c.Op == OBin && (c.Tok == token.EQL && pol || c.Tok == token.NEQ && !pol) {
			for i := 0; i < 2; i++ {
				if v := typeOf(c.Args[i]); v != nil && holds(v) {
					if t := pv.globalType(c.Args[1-i]); t != nil && types.Identical(t, n.Typ) {
						return true
					}
				}
			}
		}
		if c.Op == OCall && pol && c.Method != nil && c.Method.Name() == "Implements" && len(c.Args) == 2 {
			if v := typeOf(c.Args[0]); v != nil && holds(v) {
				if t := pv.globalType(c.Args[1]); t != nil && types.Identical(t, n.Typ) {
					return true
				}
			}
		}
	}
	return false
}

// globalType: the Go type a package-level reflect.Type variable describes.
func (pv *Prover) globalType(n *Node) types.Type {
	n = n.canon()
	name := ""
	if n.MemLoc != nil && n.MemLoc.Root.canon().Op == OGlobal {
		name = n.MemLoc.Root.canon().Name
	} else if n.Op == OLoad && n.Args[0].canon().Op == OGlobal {
		name = n.Args[0].canon().Name
	} else if n.Op == OCall {
		return pv.P.reflectTypeOf(n.Src)
	}
	if name == "" {
		return nil
	}
	return pv.P.globalReflectType(name)
}

func (p *Program) globalReflectType(name string) types.Type {
	var res types.Type
	cnt := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && g.Name() == name {
					cnt++
					res = p.reflectTypeOf(st.Val)
				}
			}
		}
	}
	if cnt == 1 {
		return res
	}
	return nil
}

// reflectTypeOf understands reflect.TypeOf(x) and reflect.TypeOf(x).Elem().
func (p *Program) reflectTypeOf(v ssa.Value) types.Type {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return p.globalReflectType(g.Name())
		}
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if c.Call.IsInvoke() {
		if c.Call.Method.Name() != "Elem" {
			return nil
		}
		t := p.reflectTypeOf(c.Call.Value)
		if t == nil {
			return nil
		}
		return deref(t)
	}
	g := c.Call.StaticCallee()
	if g == nil || extFnName(g) != "reflect.TypeOf" || len(c.Call.Args) != 1 {
		return nil
	}
	if mi := makeIfaceOf(c.Call.Args[0]); mi != nil {
		return mi.X.Type()
	}
	return nil
}

// mapType: every Store on the same sync.Map stores that type.
func (pv *Prover) mapType(load *Node, t types.Type) bool {
	m := load.Args[0].canon()
	if m.Op != OGlobal {
		return false
	}
	found := false
	for _, f := range pv.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, args := callOf(in)
				if c == nil || c.Name() != "Store" && c.Name() != "LoadOrStore" || len(args) < 3 || args[0].Name() != m.Name {
					continue
				}
				found = true
				mi := makeIfaceOf(args[2])
				if mi == nil || !types.Identical(mi.X.Type(), t) {
					return false
				}
			}
		}
	}
	return found
}

// poolType: every Put on the same pool (and its New) stores that type.
func (pv *Prover) poolType(get *Node, t types.Type) bool {
	pool := get.Args[0].canon()
	if pool.Op != OGlobal {
		return false
	}
	found := false
	for _, f := range pv.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, args := callOf(in)
				if c == nil || c.Name() != "Put" || len(args) < 2 || args[0].Name() != pool.Name {
					continue
				}
				found = true
				mi := makeIfaceOf(args[1])
				if mi == nil || !types.Identical(mi.X.Type(), t) {
					return false
				}
			}
		}
	}
	return found
}

func callOf(in ssa.Instruction) (*ssa.Function, []ssa.Value) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, nil
	}
	return ci.Common().StaticCallee(), ci.Common().Args
}

func makeIfaceOf(v ssa.Value) *ssa.MakeInterface {
	m, _ := v.(*ssa.MakeInterface)
	return m
}

func elemSize(t types.Type) int64 {
	e := elemOf(t)
	if e == nil {
		return 1
	}
	if n := types.SizesFor("gc", "amd64").Sizeof(e); n > 0 {
		return n
	}
	return 1
}

// witnesses looks for a source of nil for every pointer that could not be proved non-nil.
func (s *Summaries) witnesses(fi *FuncInfo) {
	for _, o := range fi.Obs {
		if o.nilGoal == nil || !o.Proved {
			continue
		}
		why, src := s.nilSource(fi, o.nilGoal, o.N.Blk, o.N.Idx)
		if src {
			o.Proved = false
			o.Failed = o.nilGoal.String() + "!=nil"
			o.Why = why
		} else {
			o.NoSource = true
		}
	}
}

func (s *Summaries) dischargeAll(depth int) {
	parallel(len(s.Order), func(i int) { s.discharge(s.Order[i], depth) })
	for _, fi := range s.Order {
		s.witnesses(fi)
	}
	for _, fi := range s.Order {
		s.caseSplit(fi, depth)
	}
}
