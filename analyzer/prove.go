package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts about IR values and the entailment test.

type FKind uint8

const (
	FBool FKind = iota
	FNonNil
	FNil
	FLin // L >= 0
	FNeq // L != 0
	FImpl
	FEqLin // L == 0
)

type Fact struct {
	K    FKind
	N    *Node
	Pol  bool
	L    Lin
	Ante []Fact
	Cons []Fact
}

func (f Fact) String() string {
	switch f.K {
	case FBool:
		return fmt.Sprintf("%s=%v", f.N, f.Pol)
	case FNonNil:
		return f.N.String() + "!=nil"
	case FNil:
		return f.N.String() + "==nil"
	case FLin:
		return f.L.String() + ">=0"
	case FNeq:
		return f.L.String() + "!=0"
	case FEqLin:
		return f.L.String() + "==0"
	}
	return fmt.Sprintf("%v=>%v", f.Ante, f.Cons)
}

type Prover struct {
	P      *Program
	IR     *IR
	inv    map[*Block][]Fact
	S      *Summaries
	linMemo map[*Node]Lin
	budget int
	bigBudget int
	nodeF  map[*Node][]Fact
	gatherMemo map[gkey]gval
	Steps  int
	extra []Fact // assumptions valid everywhere in this IR (specialisation)
}

type gkey struct {
	b, stop *Block
	idx     int
}
type gval struct {
	facts []Fact
	joins []*Block
}

func newProver(ir *IR, s *Summaries) *Prover {
	return &Prover{P: ir.P, IR: ir, inv: map[*Block][]Fact{}, S: s, linMemo: map[*Node]Lin{}, nodeF: map[*Node][]Fact{}, gatherMemo: map[gkey]gval{}}
}

// ---- linear forms -------------------------------------------------------------------------------------------

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	}
	return 0, 0, false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isWide(t types.Type) bool { // 64-bit signed arithmetic treated as exact
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt)
}

func (pv *Prover) lin(n *Node) Lin {
	n = n.canon()
	if l, ok := pv.linMemo[n]; ok {
		return l
	}
	l := pv.lin0(n)
	pv.linMemo[n] = l
	return l
}

func (pv *Prover) lin0(n *Node) Lin {
	switch n.Op {
	case OConst:
		if n.Const != nil && n.Const.Kind() == constant.Int {
			if v, ok := constant.Int64Val(n.Const); ok {
				return linC(v)
			}
		}
	case OBin:
		if isIntType(n.Typ) && isWide(n.Typ) {
			a, b := n.Args[0], n.Args[1]
			switch n.Tok {
			case token.ADD:
				if !pv.hugeRisk(a) && !pv.hugeRisk(b) {
					return pv.lin(a).add(pv.lin(b), 1)
				}
			case token.SUB:
				if !pv.hugeRisk(a) && !pv.hugeRisk(b) {
					return pv.lin(a).add(pv.lin(b), -1)
				}
			case token.MUL:
				la, lb := pv.lin(a), pv.lin(b)
				if la.isConst() && !pv.hugeRisk(b) && la.C < 1<<20 && la.C > -1<<20 {
					return lb.scale(la.C)
				}
				if lb.isConst() && !pv.hugeRisk(a) && lb.C < 1<<20 && lb.C > -1<<20 {
					return la.scale(lb.C)
				}
			case token.SHL:
				lb := pv.lin(b)
				if lb.isConst() && lb.C >= 0 && lb.C < 16 && !pv.hugeRisk(a) {
					return pv.lin(a).scale(1 << uint(lb.C))
				}
			}
		}
	case OUn:
		if n.Tok == token.SUB && isWide(n.Typ) {
			return pv.lin(n.Args[0]).scale(-1)
		}
	case OConvert:
		s := n.Args[0].canon()
		if isIntType(n.Typ) && isIntType(s.Typ) && convExact(s.Typ, n.Typ) {
			return pv.lin(s)
		}
	case OChangeType:
		if isIntType(n.Typ) {
			return pv.lin(n.Args[0])
		}
	case OBuiltin:
		switch n.Name {
		case "len":
			return pv.lenOf(n.Args[0])
		case "cap":
			return pv.capOf(n.Args[0])
		}
	}
	return linA(Atom{AVal, n})
}

func kindBits(t types.Type) (bits int, unsigned, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	}
	return
}

func convExact(from, to types.Type) bool {
	fb, fu, ok1 := kindBits(from)
	tb, tu, ok2 := kindBits(to)
	if !ok1 || !ok2 {
		return false
	}
	if fu == tu {
		return tb >= fb
	}
	if fu && !tu {
		return tb > fb
	}
	return false
}

// hugeRisk: the value may be close to the limits of int64, so sums of it may wrap.
func (pv *Prover) hugeRisk(n *Node) bool {
	n = n.canon()
	switch n.Op {
	case OConvert:
		fb, fu, ok := kindBits(n.Args[0].canon().Typ)
		if ok && fu && fb == 64 {
			return true
		}
		if ok && fb == 64 {
			return pv.hugeRisk(n.Args[0])
		}
		return false
	case OConst:
		l := pv.lin(n)
		return l.C > 1<<40 || l.C < -(1<<40)
	case OExtract:
		c := n.Args[0].canon()
		if c.Op == OCall && c.Callee != nil && c.Callee.Pkg != pv.P.SSA && c.Callee.Object() != nil {
			switch c.Callee.Object().Name() {
			case "ParseInt", "ParseUint", "Atoi":
				return true
			}
		}
	case OCall:
		if c := n; c.Callee != nil && c.Callee.Object() != nil {
			switch c.Callee.Object().Name() {
			case "Uint64", "Int":
				return true
			}
		}
	}
	return false
}

func arrayLen(t types.Type) (int64, bool) {
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func extName(n *Node) string {
	if n.Op != OCall || n.Callee == nil {
		return ""
	}
	o := n.Callee.Object()
	if o == nil || o.Pkg() == nil {
		return ""
	}
	if r := n.Callee.Signature.Recv(); r != nil {
		return o.Pkg().Name() + "." + strings.TrimPrefix(tname(r.Type()), "*") + "." + o.Name()
	}
	return o.Pkg().Name() + "." + o.Name()
}

func (pv *Prover) lenOf(x *Node) Lin {
	x = x.canon()
	if n, ok := arrayLen(x.Typ); ok {
		return linC(n)
	}
	switch x.Op {
	case OConst:
		if x.IsNil {
			return linC(0)
		}
		if x.Const.Kind() == constant.String {
			return linC(int64(len(constant.StringVal(x.Const))))
		}
	case OSlice:
		lo, hi := linC(0), Lin{}
		i := 1
		if x.Lo {
			lo = pv.lin(x.Args[i])
			i++
		}
		if x.Hi {
			hi = pv.lin(x.Args[i])
		} else {
			hi = pv.lenOf(x.Args[0])
		}
		return hi.add(lo, -1)
	case OMakeSlice:
		return pv.lin(x.Args[0])
	case OConvert:
		s := x.Args[0].canon()
		if (isByteSlice(x.Typ) || isString(x.Typ)) && (isByteSlice(s.Typ) || isString(s.Typ)) {
			return pv.lenOf(s)
		}
	case OChangeType:
		return pv.lenOf(x.Args[0])
	case OBuiltin:
		if x.Name == "append" {
			if len(x.Args) == 1 {
				return pv.lenOf(x.Args[0])
			}
			return pv.lenOf(x.Args[0]).add(pv.lenOf(x.Args[1]), 1)
		}
	case OBin:
		if x.Tok == token.ADD && isString(x.Typ) {
			return pv.lenOf(x.Args[0]).add(pv.lenOf(x.Args[1]), 1)
		}
	case OCall:
		switch extName(x) {
		case "DxCommonLib.FastByte2String", "DxCommonLib.FastString2Byte":
			return pv.lenOf(x.Args[0])
		}
	}
	return linA(Atom{ALen, x})
}

func (pv *Prover) capOf(x *Node) Lin {
	x = x.canon()
	if n, ok := arrayLen(x.Typ); ok {
		return linC(n)
	}
	switch x.Op {
	case OConst:
		return linC(0)
	case OSlice:
		if isString(x.Typ) {
			return pv.lenOf(x)
		}
		lo := linC(0)
		i := 1
		if x.Lo {
			lo = pv.lin(x.Args[i])
			i++
		}
		if x.Hi {
			i++
		}
		if x.Max {
			return pv.lin(x.Args[i]).add(lo, -1)
		}
		return pv.capOf(x.Args[0]).add(lo, -1)
	case OMakeSlice:
		return pv.lin(x.Args[1])
	case OChangeType:
		return pv.capOf(x.Args[0])
	}
	if isString(x.Typ) {
		return pv.lenOf(x)
	}
	return linA(Atom{ACap, x})
}

// ---- gathering facts ----------------------------------------------------------------------------------------

func (pv *Prover) nodeFacts(n *Node) []Fact {
	if f, ok := pv.nodeF[n]; ok {
		return f
	}
	var fs []Fact
	ge := func(l Lin) { fs = append(fs, Fact{K: FLin, L: l}) }
	switch n.Op {
	case OIndexAddr, OIndex:
		i := pv.lin(n.Args[1])
		ge(i)
		ge(pv.lenOf(n.Args[0]).add(i, -1).plus(-1))
	case OLookup:
		if isString(n.Args[0].Typ) {
			i := pv.lin(n.Args[1])
			ge(i)
			ge(pv.lenOf(n.Args[0]).add(i, -1).plus(-1))
		}
	case OSlice:
		lo, hi, k := linC(0), pv.lenOf(n.Args[0]), 1
		if n.Lo {
			lo = pv.lin(n.Args[k])
			k++
		}
		if n.Hi {
			hi = pv.lin(n.Args[k])
		}
		ge(lo)
		ge(hi.add(lo, -1))
		ge(pv.capOf(n.Args[0]).add(hi, -1))
	case OFieldAddr:
		fs = append(fs, Fact{K: FNonNil, N: n.Args[0]})
	case OLoad:
		fs = append(fs, Fact{K: FNonNil, N: n.Args[0]})
	case OStore:
		fs = append(fs, Fact{K: FNonNil, N: n.Args[0]})
	case OCall:
		if n.Method != nil {
			fs = append(fs, Fact{K: FNonNil, N: n.Args[0]})
		}
		fs = append(fs, pv.externFacts(n)...)
		if pv.S != nil && n.Callee != nil {
			fs = append(fs, pv.S.instantiate(pv, n)...)
		}
	case OBuiltin:
		if n.Name == "copy" {
			r := pv.lin(n)
			ge(r)
			ge(pv.lenOf(n.Args[0]).add(r, -1))
			ge(pv.lenOf(n.Args[1]).add(r, -1))
		}
	}
	pv.nodeF[n] = fs
	return fs
}

func edgeFact(p, x *Block) (Fact, bool) {
	t := p.Nodes[len(p.Nodes)-1]
	if t.Op != OIf || len(p.Succs) != 2 || p.Succs[0] == p.Succs[1] {
		return Fact{}, false
	}
	return Fact{K: FBool, N: t.Args[0], Pol: p.Succs[0] == x}, true
}

// gather collects what holds just before node idx of block b on every path from stop (exclusive).
func (pv *Prover) gather(b *Block, idx int, stop *Block) ([]Fact, []*Block) {
	k := gkey{b, stop, idx}
	if v, ok := pv.gatherMemo[k]; ok {
		return v.facts, v.joins
	}
	var facts []Fact
	var joins []*Block
	lim := idx
	for x := b; x != nil && x != stop; {
		for _, n := range x.Nodes {
			if n.Idx >= lim {
				break
			}
			facts = append(facts, pv.nodeFacts(n)...)
		}
		lim = 1 << 30
		if x.isLoopHeader() {
			facts = append(facts, pv.inv[x]...)
			x = x.idom
			continue
		}
		if len(x.Preds) == 1 {
			if f, ok := edgeFact(x.Preds[0], x); ok {
				facts = append(facts, f)
			}
			x = x.Preds[0]
			continue
		}
		if len(x.Preds) > 1 {
			facts = append(facts, pv.inv[x]...)
			joins = append(joins, x)
		}
		x = x.idom
	}
	pv.gatherMemo[k] = gval{facts, joins}
	return facts, joins
}

func (pv *Prover) resetMemo() {
	pv.nodeF = map[*Node][]Fact{}
	pv.gatherMemo = map[gkey]gval{}
}

// ---- context ------------------------------------------------------------------------------------------------

type ctx struct {
	facts []Fact
	joins []*Block
	sub   map[*Node]*Node
	depth int
	opened map[*Block]bool
}

func (c *ctx) resolve(n *Node) *Node {
	n = n.canon()
	for i := 0; i < 50; i++ {
		s, ok := c.sub[n]
		if !ok {
			break
		}
		n = s.canon()
	}
	return n
}

// phi nodes (ordinary and memory) of a block
func (pv *Prover) phisOf(b *Block) []*Node {
	var out []*Node
	for _, n := range b.Nodes {
		if n.Op == OPhi && n.repl == nil {
			out = append(out, n)
		}
	}
	for _, n := range pv.IR.memPhisOf(b) {
		out = append(out, n)
	}
	return out
}

func (ir *IR) memPhisOf(b *Block) []*Node {
	if ir.memPhiIdx == nil {
		ir.memPhiIdx = map[*Block][]*Node{}
		seen := map[*Node]bool{}
		for _, n := range ir.mem.vals {
			if n.Op == OMemPhi && n.repl == nil && len(n.Args) == len(n.Blk.Preds) && !seen[n] {
				seen[n] = true
				ir.memPhiIdx[n.Blk] = append(ir.memPhiIdx[n.Blk], n)
			}
		}
		for _, l := range ir.memPhiIdx {
			sortNodes(l)
		}
	}
	return ir.memPhiIdx[b]
}

type state struct {
	nilm  map[*Node]int8 // 1 non-nil, -1 nil
	bools map[*Node]bool
	lins  []Lin
	neqs  []Lin
	impls []Fact
	bad   bool
}

// nonNilGlobals: package variables that are only ever assigned values that cannot be nil.
var nonNilGlobals map[string]bool

func (p *Program) computeNonNilGlobals() {
	nonNilGlobals = map[string]bool{}
	bad := map[*ssa.Global]bool{}
	good := map[*ssa.Global]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != p.SSA {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						_ = x
					case *ssa.Store:
						if x.Val == ssa.Value(g) {
							bad[g] = true
						} else if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
							if staticNonNil(x.Val) {
								good[g] = true
							} else {
								bad[g] = true
							}
						} else if !staticNonNil(x.Val) {
							bad[g] = true
						}
					default:
						if isPtrLike(deref(g.Type())) {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for g := range good {
		if !bad[g] {
			nonNilGlobals[g.Name()] = true
		}
	}
}

func staticNonNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.MakeChan:
		return true
	case *ssa.ChangeType:
		return staticNonNil(x.X)
	case *ssa.ChangeInterface:
		return staticNonNil(x.X)
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil && c.Pkg != nil {
			switch c.Pkg.Pkg.Path() + "." + c.Name() {
			case "errors.New", "fmt.Errorf":
				return true
			}
		}
	}
	return false
}

func inherentNonNil(n *Node) bool {
	if n.MemLoc != nil && n.MemLoc.Path == "" {
		if r := n.MemLoc.Root.canon(); r.Op == OGlobal && nonNilGlobals[r.Name] {
			return true
		}
	}
	switch n.Op {
	case OLoad:
		if g := n.Args[0].canon(); g.Op == OGlobal && nonNilGlobals[g.Name] {
			return true
		}
	case OAlloc, OFieldAddr, OIndexAddr, OMakeIface, OMakeClosure, OFunc, OGlobal, OFreeVar, OMakeSlice, OMakeMap:
		return true
	case OConvert:
		return inherentNonNil(n.Args[0].canon()) && isPtrLike(n.Typ)
	case OChangeType, OChangeIface:
		return inherentNonNil(n.Args[0].canon())
	case OSlice:
		// slicing a pointer to an array
		_, isp := n.Args[0].Typ.Underlying().(*types.Pointer)
		return isp
	case OCall:
		switch extName(n) {
		case "errors.New", "fmt.Errorf":
			return true
		case "reflect.TypeOf":
			return true // nil only for a nil interface; callers check IsValid first
		case "reflect.Value.Type":
			return true
		}
	}
	return false
}

func (pv *Prover) eval(c *ctx) *state {
	st := &state{nilm: map[*Node]int8{}, bools: map[*Node]bool{}}
	queue := append([]Fact{}, pv.extra...)
	queue = append(queue, c.facts...)
	for s, t := range c.sub {
		// equalities brought in by the chosen edge
		if isIntType(s.Typ) {
			st.lins = append(st.lins, linA(Atom{AVal, s}).add(pv.lin(t), -1), pv.lin(t).add(linA(Atom{AVal, s}), -1))
		} else if _, ok := s.Typ.Underlying().(*types.Slice); ok || isString(s.Typ) {
			e := pv.lenOf(s).add(pv.lenOf(t), -1)
			st.lins = append(st.lins, e, e.scale(-1))
			if !isString(s.Typ) {
				e = pv.capOf(s).add(pv.capOf(t), -1)
				st.lins = append(st.lins, e, e.scale(-1))
			}
		}
	}
	for s := range c.sub {
		if t := c.resolve(s); isTrimCall(t) {
			// trimming what is already trimmed changes nothing
			for _, u := range pv.IR.trimCalls() {
				if u.Args[0].canon() == s && sameTrim(t, u) {
					e := pv.lenOf(u).add(pv.lenOf(t), -1)
					st.lins = append(st.lins, e, e.scale(-1))
				}
			}
		}
	}
	var process func(f Fact)
	process = func(f Fact) {
		if st.bad {
			return
		}
		switch f.K {
		case FLin:
			if f.L.isConst() && f.L.C < 0 {
				st.bad = true
				return
			}
			st.lins = append(st.lins, f.L)
		case FEqLin:
			if f.L.isConst() && f.L.C != 0 {
				st.bad = true
				return
			}
			st.lins = append(st.lins, f.L, f.L.scale(-1))
		case FNeq:
			if f.L.isConst() {
				st.bad = st.bad || f.L.C == 0
				return
			}
			st.neqs = append(st.neqs, f.L)
		case FNil, FNonNil:
			n := c.resolve(f.N)
			for n.Op == OChangeType || n.Op == OChangeIface {
				n = c.resolve(n.Args[0])
			}
			v := int8(1)
			if f.K == FNil {
				v = -1
			}
			if inherentNonNil(n) && v < 0 || n.Op == OConst && n.IsNil && v > 0 {
				st.bad = true
				return
			}
			if o := st.nilm[n]; o != 0 && o != v {
				st.bad = true
				return
			}
			st.nilm[n] = v
			if v > 0 && isTrimCall(n) {
				// bytes.Trim* return nil, not an empty slice, when nothing is left
				st.lins = append(st.lins, pv.lenOf(n).plus(-1))
			}
			if v < 0 {
				if _, ok := n.Typ.Underlying().(*types.Slice); ok {
					l := pv.lenOf(n)
					st.lins = append(st.lins, l, l.scale(-1))
				}
			}
		case FBool:
			n := c.resolve(f.N)
			switch n.Op {
			case OConst:
				if n.Const != nil && constant.BoolVal(n.Const) != f.Pol {
					st.bad = true
				}
				return
			case OUn:
				if n.Tok == token.NOT {
					process(Fact{K: FBool, N: n.Args[0], Pol: !f.Pol})
					return
				}
			case OBin:
				pv.cmpFact(c, st, n, f.Pol, process)
			case OExtract:
				t := n.Args[0].canon()
				if t.Op == OTypeAssert && n.Field == 1 && f.Pol {
					process(Fact{K: FNonNil, N: t.Args[0]})
				}
			case OCall:
				for _, g := range pv.externBool(n, f.Pol) {
					process(g)
				}
			}
			if o, ok := st.bools[n]; ok && o != f.Pol {
				st.bad = true
				return
			}
			st.bools[n] = f.Pol
		case FImpl:
			st.impls = append(st.impls, f)
		}
	}
	for _, f := range queue {
		process(f)
		if st.bad {
			return st
		}
	}
	// implications
	done := map[int]bool{}
	for changed := true; changed && !st.bad; {
		changed = false
		for i := 0; i < len(st.impls); i++ {
			if done[i] {
				continue
			}
			f := st.impls[i]
			all, unknown := true, -1
			nunk := 0
			for j, a := range f.Ante {
				switch pv.known(c, st, a) {
				case 1:
				case -1:
					done[i] = true
					all = false
				default:
					all = false
					unknown = j
					nunk++
				}
				if done[i] {
					break
				}
			}
			if done[i] {
				continue
			}
			if all {
				done[i] = true
				changed = true
				for _, g := range f.Cons {
					process(g)
				}
				continue
			}
			if nunk == 1 {
				for _, g := range f.Cons {
					if pv.known(c, st, g) == -1 {
						if neg, ok := negate(f.Ante[unknown]); ok {
							done[i] = true
							changed = true
							process(neg)
							break
						}
					}
				}
			}
		}
	}
	if !st.bad {
		st.bad = st.intervalsEmpty()
	}
	return st
}

// intervalsEmpty: the single-variable constraints alone contradict each other (two different cases of a switch).
func (st *state) intervalsEmpty() bool {
	type iv struct{ lo, hi int64 }
	m := map[Atom]*iv{}
	at := func(a Atom) *iv {
		x := m[a]
		if x == nil {
			x = &iv{-big, big}
			if a.Kind != AVal {
				x.lo = 0
			} else if lo, hi, ok := intRange(a.N.Typ); ok {
				x.lo, x.hi = lo, hi
			}
			m[a] = x
		}
		return x
	}
	for _, l := range st.lins {
		if len(l.M) != 1 {
			continue
		}
		for a, c := range l.M {
			x := at(a)
			switch {
			case c == 1 && -l.C > x.lo:
				x.lo = -l.C
			case c == -1 && l.C < x.hi:
				x.hi = l.C
			}
			if x.lo > x.hi {
				return true
			}
		}
	}
	for r := 0; r < 4; r++ {
		ch := false
		for _, l := range st.neqs {
			if len(l.M) != 1 {
				continue
			}
			for a, c := range l.M {
				x := m[a]
				if x == nil || c != 1 && c != -1 {
					continue
				}
				v := -l.C * c
				if v == x.lo {
					x.lo++
					ch = true
				} else if v == x.hi {
					x.hi--
					ch = true
				}
				if x.lo > x.hi {
					return true
				}
			}
		}
		if !ch {
			break
		}
	}
	return false
}

func negate(f Fact) (Fact, bool) {
	switch f.K {
	case FNil:
		return Fact{K: FNonNil, N: f.N}, true
	case FNonNil:
		return Fact{K: FNil, N: f.N}, true
	case FBool:
		return Fact{K: FBool, N: f.N, Pol: !f.Pol}, true
	case FLin:
		return Fact{K: FLin, L: f.L.scale(-1).plus(-1)}, true
	case FEqLin:
		return Fact{K: FNeq, L: f.L}, true
	}
	return Fact{}, false
}

// known: 1 true, -1 false, 0 unknown
func (pv *Prover) known(c *ctx, st *state, f Fact) int {
	switch f.K {
	case FNil, FNonNil:
		n := c.resolve(f.N)
		for n.Op == OChangeType || n.Op == OChangeIface {
			n = c.resolve(n.Args[0])
		}
		v := int(st.nilm[n])
		if inherentNonNil(n) {
			v = 1
		}
		if n.Op == OConst && n.IsNil {
			v = -1
		}
		if f.K == FNil {
			v = -v
		}
		return v
	case FBool:
		n := c.resolve(f.N)
		pol := f.Pol
		for n.Op == OUn && n.Tok == token.NOT {
			n = c.resolve(n.Args[0])
			pol = !pol
		}
		if n.Op == OConst && n.Const != nil {
			if constant.BoolVal(n.Const) == pol {
				return 1
			}
			return -1
		}
		if b, ok := st.bools[n]; ok {
			if b == pol {
				return 1
			}
			return -1
		}
		// nil comparisons
		if n.Op == OBin && (n.Tok == token.EQL || n.Tok == token.NEQ) {
			a, b := c.resolve(n.Args[0]), c.resolve(n.Args[1])
			if a.Op == OConst && a.IsNil {
				a, b = b, a
			}
			if b.Op == OConst && b.IsNil && isPtrLike(a.Typ) {
				g := Fact{K: FNil, N: a}
				if (n.Tok == token.NEQ) == pol {
					g.K = FNonNil
				}
				return pv.known(c, st, g)
			}
		}
		return 0
	case FLin:
		if f.L.isConst() {
			if f.L.C >= 0 {
				return 1
			}
			return -1
		}
		if pv.linEntails(st, f.L) {
			return 1
		}
		if pv.linEntails(st, f.L.scale(-1).plus(-1)) {
			return -1
		}
	case FEqLin:
		if f.L.isConst() {
			if f.L.C == 0 {
				return 1
			}
			return -1
		}
		if pv.linEntails(st, f.L) && pv.linEntails(st, f.L.scale(-1)) {
			return 1
		}
		if pv.nonzero(st, f.L) {
			return -1
		}
	case FNeq:
		if f.L.isConst() {
			if f.L.C != 0 {
				return 1
			}
			return -1
		}
		if pv.nonzero(st, f.L) {
			return 1
		}
		if pv.linEntails(st, f.L) && pv.linEntails(st, f.L.scale(-1)) {
			return -1
		}
	case FImpl:
		return 0
	}
	return 0
}

func (pv *Prover) nonzero(st *state, l Lin) bool {
	if pv.linEntails(st, l.plus(-1)) || pv.linEntails(st, l.scale(-1).plus(-1)) {
		return true
	}
	for _, o := range st.neqs {
		d := o.add(l, -1)
		s := o.add(l, 1)
		if d.isConst() && d.C == 0 || s.isConst() && s.C == 0 {
			return true
		}
	}
	return false
}

func (pv *Prover) cmpFact(c *ctx, st *state, n *Node, pol bool, process func(Fact)) {
	a, b := c.resolve(n.Args[0]), c.resolve(n.Args[1])
	tok := n.Tok
	if !pol {
		switch tok {
		case token.EQL:
			tok = token.NEQ
		case token.NEQ:
			tok = token.EQL
		case token.LSS:
			tok = token.GEQ
		case token.LEQ:
			tok = token.GTR
		case token.GTR:
			tok = token.LEQ
		case token.GEQ:
			tok = token.LSS
		default:
			return
		}
	}
	if isIntType(a.Typ) {
		d := pv.lin(a).add(pv.lin(b), -1) // a-b
		switch tok {
		case token.EQL:
			process(Fact{K: FEqLin, L: d})
		case token.NEQ:
			process(Fact{K: FNeq, L: d})
		case token.LSS:
			process(Fact{K: FLin, L: d.scale(-1).plus(-1)})
		case token.LEQ:
			process(Fact{K: FLin, L: d.scale(-1)})
		case token.GTR:
			process(Fact{K: FLin, L: d.plus(-1)})
		case token.GEQ:
			process(Fact{K: FLin, L: d})
		}
		return
	}
	if bt, ok := a.Typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		if b.Op == OConst && b.Const != nil {
			process(Fact{K: FBool, N: a, Pol: constant.BoolVal(b.Const) == (tok == token.EQL)})
		} else if a.Op == OConst && a.Const != nil {
			process(Fact{K: FBool, N: b, Pol: constant.BoolVal(a.Const) == (tok == token.EQL)})
		}
		return
	}
	if isString(a.Typ) {
		if a.Op == OConst {
			a, b = b, a
		}
		switch tok {
		case token.EQL:
			process(Fact{K: FEqLin, L: pv.lenOf(a).add(pv.lenOf(b), -1)})
		case token.NEQ:
			if b.Op == OConst && constant.StringVal(b.Const) == "" {
				process(Fact{K: FLin, L: pv.lenOf(a).plus(-1)})
			}
		}
		return
	}
	if isPtrLike(a.Typ) {
		if a.Op == OConst && a.IsNil {
			a, b = b, a
		}
		if b.Op == OConst && b.IsNil {
			if tok == token.EQL {
				process(Fact{K: FNil, N: a})
			} else if tok == token.NEQ {
				process(Fact{K: FNonNil, N: a})
			}
		} else if tok == token.EQL {
			if st.nilm[a] != 0 && st.nilm[b] == 0 {
				st.nilm[b] = st.nilm[a]
			} else if st.nilm[b] != 0 && st.nilm[a] == 0 {
				st.nilm[a] = st.nilm[b]
			}
			if inherentNonNil(b) {
				process(Fact{K: FNonNil, N: a})
			}
		}
	}
}

// ---- linear entailment with axioms --------------------------------------------------------------------------

func (pv *Prover) atomAxioms(a Atom, st *state, sofar []Lin) []Lin {
	var out []Lin
	self := linA(a)
	switch a.Kind {
	case ALen:
		out = append(out, self, linC(1<<47).add(self.scale(elemSize(a.N.Typ)), -1))
		x := a.N
		switch x.Op {
		case OCall:
			switch extName(x) {
			case "strings.Split", "bytes.Split":
				if sep := x.Args[1].canon(); sep.Op == OConst && !sep.IsNil && constant.StringVal(sep.Const) != "" {
					out = append(out, self.plus(-1))
				}
			case "bytes.TrimSpace", "bytes.Trim", "bytes.TrimFunc", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimLeftFunc", "bytes.TrimRightFunc",
				"bytes.TrimPrefix", "bytes.TrimSuffix",
				"strings.TrimSpace", "strings.Trim", "strings.TrimFunc", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
				out = append(out, pv.lenOf(x.Args[0]).add(self, -1))
				if in := x.Args[0].canon(); isTrimCall(in) && sameTrim(in, x) {
					out = append(out, self.add(pv.lenOf(in), -1))
				}
			case "strconv.AppendInt", "strconv.AppendFloat", "strconv.AppendUint", "strconv.AppendBool", "strconv.AppendQuote":
				out = append(out, self.add(pv.lenOf(x.Args[0]), -1).plus(-1))
			case "DxCommonLib.EscapeJsonbyte":
				out = append(out, self.add(pv.lenOf(x.Args[2]), -1))
			}
		}
	case ACap:
		out = append(out, self.add(pv.lenOf(a.N), -1), linC(1<<47).add(self, -1))
	case AVal:
		n := a.N
		if lo, hi, ok := intRange(n.Typ); ok {
			out = append(out, self.plus(-lo), linC(hi).add(self, -1))
		} else if isUnsigned(n.Typ) {
			out = append(out, self)
		}
		switch n.Op {
		case OBin:
			x, y := n.Args[0].canon(), n.Args[1].canon()
			lx, ly := pv.lin(x), pv.lin(y)
			nonneg := func(v *Node, l Lin) bool {
				return isUnsigned(v.Typ) || l.isConst() && l.C >= 0 || infeasible(append(append([]Lin{}, sofar...), l.scale(-1).plus(-1)))
			}
			switch n.Tok {
			case token.AND:
				if ly.isConst() && ly.C >= 0 {
					out = append(out, self, linC(ly.C).add(self, -1))
				} else if lx.isConst() && lx.C >= 0 {
					out = append(out, self, linC(lx.C).add(self, -1))
				}
				if isUnsigned(n.Typ) {
					out = append(out, lx.add(self, -1), ly.add(self, -1))
				}
			case token.REM:
				if ly.isConst() && ly.C > 0 && nonneg(x, lx) {
					out = append(out, self, linC(ly.C-1).add(self, -1))
				}
			case token.SHR:
				if isUnsigned(n.Typ) {
					out = append(out, lx.add(self, -1))
				}
			case token.QUO:
				if ly.isConst() && ly.C > 0 && nonneg(x, lx) {
					// c*self <= x <= c*self + c-1
					out = append(out, self, lx.add(self.scale(ly.C), -1), self.scale(ly.C).plus(ly.C-1).add(lx, -1))
				}
			case token.ADD, token.SUB, token.MUL:
				var e Lin
				switch {
				case n.Tok == token.ADD:
					e = lx.add(ly, 1)
				case n.Tok == token.SUB:
					e = lx.add(ly, -1)
				case lx.isConst():
					e = ly.scale(lx.C)
				case ly.isConst():
					e = lx.scale(ly.C)
				default:
					return out
				}
				lo, hi, ok := intRange(n.Typ)
				if !ok {
					if isUnsigned(n.Typ) {
						lo, hi = 0, 1<<59
					} else {
						lo, hi = -(1 << 59), 1<<59
					}
				}
				base := pv.withAxioms(append([]Lin{}, sofar...), e, st, 1)
				if infeasible(append(append([]Lin{}, base...), e.scale(-1).plus(lo-1))) && infeasible(append(append([]Lin{}, base...), e.plus(-hi-1))) {
					d := self.add(e, -1)
					out = append(out, d, d.scale(-1))
				}
			}
		case OConvert:
			s := n.Args[0].canon()
			if isIntType(s.Typ) && isIntType(n.Typ) {
				e := pv.lin(s)
				lo, hi, ok := intRange(n.Typ)
				if !ok {
					lo, hi = -(1 << 59), 1<<59
					if isUnsigned(n.Typ) {
						lo = 0
					}
				}
				base := pv.withAxioms(append([]Lin{}, sofar...), e, st, 1)
				if infeasible(append(append([]Lin{}, base...), e.scale(-1).plus(lo-1))) && infeasible(append(append([]Lin{}, base...), e.plus(-hi-1))) {
					d := self.add(e, -1)
					out = append(out, d, d.scale(-1))
				}
			}
		}
	}
	return out
}

// withAxioms adds the (cheap) axioms of the atoms of e.
func (pv *Prover) withAxioms(base []Lin, e Lin, st *state, depth int) []Lin {
	for a := range e.M {
		if a.Kind == AVal && (a.N.Op == OBin || a.N.Op == OConvert) && depth > 2 {
			continue
		}
		self := linA(a)
		if a.Kind == ALen {
			base = append(base, self, linC(1<<47).add(self, -1))
		} else if lo, hi, ok := intRange(a.N.Typ); ok && a.Kind == AVal {
			base = append(base, self.plus(-lo), linC(hi).add(self, -1))
		} else if a.Kind == AVal && isUnsigned(a.N.Typ) {
			base = append(base, self)
		}
	}
	return base
}

// relevant selects the constraints connected to the goal and adds axioms.
func (pv *Prover) relevant(st *state, goal Lin, rounds int) []Lin {
	need := map[Atom]bool{}
	var cons []Lin
	var frontier []Atom
	for a := range goal.M {
		need[a] = true
		frontier = append(frontier, a)
	}
	used := make([]bool, len(st.lins))
	for r := 0; r < rounds && len(frontier) > 0; r++ {
		var next []Atom
		grow := func(l Lin) {
			for a := range l.M {
				if !need[a] {
					need[a] = true
					next = append(next, a)
				}
			}
		}
		for i, l := range st.lins {
			if used[i] {
				continue
			}
			hit := false
			for a := range l.M {
				if need[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				cons = append(cons, l)
				grow(l)
			}
		}
		sortAtoms(frontier)
		for _, a := range frontier {
			for _, l := range pv.atomAxioms(a, st, cons) {
				cons = append(cons, l)
				grow(l)
			}
		}
		frontier = next
		if len(cons) > 260 {
			break
		}
	}
	return cons
}

func (pv *Prover) linEntails(st *state, goal Lin) bool {
	if goal.isConst() {
		if goal.C >= 0 {
			return true
		}
	}
	pv.Steps++
	neg := goal.scale(-1).plus(-1)
	cons := pv.relevant(st, goal, 5)
	cons = append(cons, neg)
	if infeasible(cons) {
		return true
	}
	// disequalities
	atoms := map[Atom]bool{}
	for _, l := range cons {
		for a := range l.M {
			atoms[a] = true
		}
	}
	var nq []Lin
	for _, l := range st.neqs {
		for a := range l.M {
			if atoms[a] {
				nq = append(nq, l)
				break
			}
		}
	}
	if len(nq) == 0 {
		return false
	}
	for round := 0; round < 3; round++ {
		changed := false
		var rest []Lin
		for _, l := range nq {
			for a := range l.M {
				if !atoms[a] {
					atoms[a] = true
					cons = append(cons, pv.atomAxioms(a, st, cons)...)
				}
			}
			up := l.plus(-1)             // l >= 1
			dn := l.scale(-1).plus(-1) // l <= -1
			if infeasible(append(append([]Lin{}, cons...), up)) {
				cons = append(cons, dn)
				changed = true
			} else if infeasible(append(append([]Lin{}, cons...), dn)) {
				cons = append(cons, up)
				changed = true
			} else {
				rest = append(rest, l)
			}
		}
		if infeasible(cons) {
			return true
		}
		nq = rest
		if !changed {
			break
		}
	}
	return false
}

// ---- goals --------------------------------------------------------------------------------------------------

// prove decides whether goal holds at (b, idx) on all paths, splitting on joins up to the given depth.
func (pv *Prover) prove(b *Block, idx int, goal Fact, assume []Fact, depth int) bool {
	if goal.K == FImpl {
		for _, g := range goal.Cons {
			if !pv.prove(b, idx, g, append(append([]Fact{}, assume...), goal.Ante...), depth) {
				return false
			}
		}
		return true
	}
	facts, joins := pv.gather(b, idx, nil)
	c := &ctx{sub: map[*Node]*Node{}, opened: map[*Block]bool{}}
	c.facts = append(append([]Fact{}, facts...), assume...)
	c.joins = joins
	pv.budget = 400
	if pv.bigBudget > 0 {
		pv.budget = pv.bigBudget
	}
	return pv.proveCtx(c, goal, depth)
}

func (pv *Prover) proveCtx(c *ctx, goal Fact, depth int) bool {
	pv.budget--
	if pv.budget < 0 {
		return false
	}
	st := pv.eval(c)
	if st.bad {
		return true
	}
	switch goal.K {
	case FBool:
		// reduce a comparison to its linear or nil form
		for _, g := range pv.reduceBool(c, goal) {
			if g.K == goal.K && g.N == goal.N {
				if pv.known(c, st, goal) == 1 {
					return true
				}
				continue
			}
			if pv.quick(c, st, g) {
				return true
			}
		}
	default:
		if pv.quick(c, st, goal) {
			return true
		}
	}
	if goal.K != FLin && goal.K != FEqLin && goal.K != FNeq && len(st.lins) < 120 {
		// an infeasible path proves anything
		cons := pv.axiomsAll(st)
		if infeasible(cons) {
			return true
		}
	}
	if depth <= 0 {
		return false
	}
	// split on a join
	js := pv.rankJoins(c, goal)
	for _, x := range js {
		if c.opened[x] {
			continue
		}
		ok := true
		for i, p := range x.Preds {
			c2 := &ctx{sub: map[*Node]*Node{}, opened: map[*Block]bool{}}
			for k, v := range c.sub {
				c2.sub[k] = v
			}
			for k := range c.opened {
				c2.opened[k] = true
			}
			c2.opened[x] = true
			f2, j2 := pv.gather(p, 1<<30, x.idom)
			c2.facts = append(append([]Fact{}, c.facts...), f2...)
			if ef, has := edgeFact(p, x); has {
				c2.facts = append(c2.facts, ef)
			}
			for _, j := range c.joins {
				if j != x {
					c2.joins = append(c2.joins, j)
				}
			}
			c2.joins = append(append([]*Block{}, j2...), c2.joins...)
			for _, ph := range pv.phisOf(x) {
				a := ph.Args[i].canon()
				if a != ph {
					c2.sub[ph] = a
				}
			}
			if !pv.proveCtx(c2, goal, depth-1) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
		if pv.budget < 0 {
			return false
		}
	}
	return false
}

func (pv *Prover) axiomsAll(st *state) []Lin {
	cons := append([]Lin{}, st.lins...)
	seen := map[Atom]bool{}
	var as []Atom
	for _, l := range st.lins {
		for a := range l.M {
			if !seen[a] {
				seen[a] = true
				as = append(as, a)
			}
		}
	}
	for _, l := range st.neqs {
		for a := range l.M {
			if !seen[a] {
				seen[a] = true
				as = append(as, a)
			}
		}
	}
	sortAtoms(as)
	if len(as) > 60 {
		return nil
	}
	for _, a := range as {
		self := linA(a)
		switch a.Kind {
		case ALen:
			cons = append(cons, self)
		case ACap:
			cons = append(cons, self.add(pv.lenOf(a.N), -1))
		case AVal:
			if lo, hi, ok := intRange(a.N.Typ); ok {
				cons = append(cons, self.plus(-lo), linC(hi).add(self, -1))
			} else if isUnsigned(a.N.Typ) {
				cons = append(cons, self)
			}
		}
	}
	for round := 0; round < 2; round++ {
		for _, l := range st.neqs {
			if l.isConst() {
				if l.C == 0 {
					return []Lin{linC(-1)}
				}
				continue
			}
			up := l.plus(-1)
			dn := l.scale(-1).plus(-1)
			if infeasible(append(append([]Lin{}, cons...), up)) {
				cons = append(cons, dn)
			} else if infeasible(append(append([]Lin{}, cons...), dn)) {
				cons = append(cons, up)
			}
		}
	}
	return cons
}

func (pv *Prover) reduceBool(c *ctx, g Fact) []Fact {
	n := c.resolve(g.N)
	var out []Fact
	st := &state{nilm: map[*Node]int8{}, bools: map[*Node]bool{}}
	switch n.Op {
	case OUn:
		if n.Tok == token.NOT {
			return pv.reduceBool(c, Fact{K: FBool, N: n.Args[0], Pol: !g.Pol})
		}
	case OBin:
		pv.cmpFact(c, st, n, g.Pol, func(f Fact) { out = append(out, f) })
	}
	return append(out, g)
}

func (pv *Prover) quick(c *ctx, st *state, goal Fact) bool {
	switch goal.K {
	case FLin:
		return pv.linEntails(st, goal.L)
	case FEqLin:
		return pv.linEntails(st, goal.L) && pv.linEntails(st, goal.L.scale(-1))
	case FNeq:
		return pv.nonzero(st, goal.L)
	default:
		return pv.known(c, st, goal) == 1
	}
}

func (pv *Prover) goalNodes(g Fact, add func(*Node)) {
	switch g.K {
	case FLin, FEqLin, FNeq:
		for a := range g.L.M {
			add(a.N)
		}
	case FImpl:
		for _, x := range g.Ante {
			pv.goalNodes(x, add)
		}
		for _, x := range g.Cons {
			pv.goalNodes(x, add)
		}
	default:
		add(g.N)
	}
}

// rankJoins orders the joins that could still be opened: first those whose phis occur in the goal or the facts on
// the goal's operands, then the nearest ones.
func (pv *Prover) rankJoins(c *ctx, goal Fact) []*Block {
	rel := map[*Node]bool{}
	var addOperand func(n *Node, d int)
	addOperand = func(n *Node, d int) {
		n = c.resolve(n)
		if rel[n] || d > 6 {
			return
		}
		rel[n] = true
		if n.Op == OPhi || n.Op == OMemPhi {
			return
		}
		for _, a := range n.Args {
			addOperand(a, d+1)
		}
	}
	pv.goalNodes(goal, func(n *Node) { addOperand(n, 0) })
	var first, second, third []*Block
	condPhi := map[*Node]bool{}
	for _, f := range c.facts {
		if f.K == FBool {
			n := c.resolve(f.N)
			for n.Op == OUn {
				n = c.resolve(n.Args[0])
			}
			if n.Op == OPhi {
				condPhi[n] = true
			}
		}
	}
	for _, j := range c.joins {
		if c.opened[j] {
			continue
		}
		hit, cond := false, false
		for _, ph := range pv.phisOf(j) {
			if rel[ph] {
				hit = true
			}
			if condPhi[ph] {
				cond = true
			}
		}
		switch {
		case hit:
			first = append(first, j)
		case cond:
			second = append(second, j)
		default:
			third = append(third, j)
		}
	}
	out := append(first, second...)
	if len(third) > 3 {
		third = third[:3]
	}
	out = append(out, third...)
	if len(out) > 5 {
		out = out[:5]
	}
	return out
}

// ---- external facts -----------------------------------------------------------------------------------------

func (pv *Prover) externFacts(n *Node) []Fact {
	var fs []Fact
	ge := func(l Lin) { fs = append(fs, Fact{K: FLin, L: l}) }
	name := extName(n)
	if n.Callee != nil && pv.P.internal(n.Callee) {
		return nil
	}
	if tup, ok := n.Typ.(*types.Tuple); ok && tup.Len() > 1 && isErrorType(tup.At(tup.Len()-1).Type()) && (name != "" || n.Method != nil) {
		// Go convention: the other results are usable when the error is nil
		res := resultNodes(pv.IR, n)
		if e := res[tup.Len()-1]; e != nil {
			for i := 0; i < tup.Len()-1; i++ {
				if r := res[i]; r != nil && isPtrLike(r.Typ) && !isLenType(r.Typ) {
					fs = append(fs, Fact{K: FImpl, Ante: []Fact{{K: FNil, N: e}}, Cons: []Fact{{K: FNonNil, N: r}}})
				}
			}
		}
	}
	if name == "" {
		if n.Method == nil {
			return fs
		}
		name = "iface." + n.Method.Name()
	}
	short := name[strings.LastIndex(name, ".")+1:]
	switch {
	case (strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "strings.")) && strings.Contains(short, "Index") && strings.Count(name, ".") == 1:
		r := pv.lin(n)
		ge(r.plus(1))
		ls := pv.lenOf(n.Args[0])
		switch short {
		case "Index", "LastIndex":
			sep := pv.lenOf(n.Args[1])
			if sep.isConst() {
				// r >= 0 implies r <= len(s)-len(sep)
				fs = append(fs, Fact{K: FImpl, Ante: []Fact{{K: FLin, L: r}}, Cons: []Fact{{K: FLin, L: ls.add(r, -1).plus(-sep.C)}}})
			}
			ge(ls.add(r, -1))
		default:
			ge(ls.add(r, -1).plus(-1))
			if strings.HasPrefix(short, "IndexByte") {
				// the first byte differs from the one searched: the result is not 0
				for _, v := range pv.IR.firstBytes(n.Args[0], n) {
					fs = append(fs, Fact{K: FImpl, Ante: []Fact{{K: FNeq, L: pv.lin(v).add(pv.lin(n.Args[1]), -1)}}, Cons: []Fact{{K: FNeq, L: r}}})
				}
			}
		}
	case short == "Read" || short == "ReadAt" || short == "ReadFull" || short == "Write":
		if r := resultNodes(pv.IR, n)[0]; r != nil && isIntType(r.Typ) {
			ge(pv.lin(r))
			for _, a := range n.Args {
				if isByteSlice(a.Typ) {
					ge(pv.lenOf(a).add(pv.lin(r), -1))
				}
			}
		}
	case short == "Size" && name == "iface.Size" || name == "os.File.Size":
		// sizes of files and collections
		ge(pv.lin(n))
		ge(linC(1 << 47).add(pv.lin(n), -1))
	}
	return fs
}

func (pv *Prover) externBool(n *Node, pol bool) []Fact {
	if !pol {
		return nil
	}
	switch extName(n) {
	case "bytes.HasPrefix", "bytes.HasSuffix", "strings.HasPrefix", "strings.HasSuffix":
		return []Fact{{K: FLin, L: pv.lenOf(n.Args[0]).add(pv.lenOf(n.Args[1]), -1)}}
	case "bytes.Equal":
		return []Fact{{K: FEqLin, L: pv.lenOf(n.Args[0]).add(pv.lenOf(n.Args[1]), -1)}}
	}
	return nil
}

var _ *ssa.Function

// firstBytes: values loaded from s[0] that are still the content of s[0] at node at
func (ir *IR) firstBytes(s, at *Node) []*Node {
	s = s.canon()
	var out []*Node
	seen := map[*Node]bool{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			var v *Node
			switch n.Op {
			case OLoad:
				a := n.Args[0].canon()
				if a.Op != OIndexAddr || a.Args[0].canon() != s {
					continue
				}
				ix := a.Args[1].canon()
				if ix.Op != OConst || ix.Const == nil || ix.Const.ExactString() != "0" {
					continue
				}
				l := ir.loc(n.Args[0])
				if ir.verAt(l.Class, b, n.Idx) != ir.verAt(l.Class, at.Blk, at.Idx) {
					continue
				}
				v = n.canon()
			case OLookup, OIndex:
				ix := n.Args[1].canon()
				if n.Args[0].canon() != s || !isString(s.Typ) || ix.Op != OConst || ix.Const == nil || ix.Const.ExactString() != "0" {
					continue
				}
				v = n.canon()
			}
			if v != nil && !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return out
}

func isTrimCall(n *Node) bool {
	switch extName(n) {
	case "bytes.TrimFunc", "bytes.TrimSpace":
		return true
	}
	return false
}

func sameTrim(a, b *Node) bool {
	return extName(a) == extName(b) && (len(a.Args) < 2 || a.Args[1].canon() == b.Args[1].canon())
}

func (ir *IR) trimCalls() []*Node {
	if ir.trims == nil {
		ir.trims = []*Node{}
		for _, b := range ir.Blocks {
			for _, n := range b.Nodes {
				if isTrimCall(n) {
					ir.trims = append(ir.trims, n)
				}
			}
		}
	}
	return ir.trims
}
