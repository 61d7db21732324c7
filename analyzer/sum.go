package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Function summaries (pre- and postconditions) and loop invariants: a finite set of candidate predicates is
// generated from templates and reduced to its greatest inductive subset.

type STerm struct {
	C int64
	M map[string]int64 // p0 (value), lp0 (len), r0, lr0
}

type SFact struct {
	K  FKind
	On string
	Pol bool
	L  STerm
}

func (f SFact) String() string {
	switch f.K {
	case FNonNil:
		return f.On + "!=nil"
	case FNil:
		return f.On + "==nil"
	case FBool:
		return fmt.Sprintf("%s==%v", f.On, f.Pol)
	}
	var ks []string
	for k, v := range f.L.M {
		ks = append(ks, fmt.Sprintf("%+d*%s", v, k))
	}
	sort.Strings(ks)
	op := ">=0"
	if f.K == FEqLin {
		op = "==0"
	}
	return strings.Join(ks, "") + fmt.Sprintf("%+d%s", f.L.C, op)
}

type SImpl struct {
	why string
	Ante []SFact
	Cons SFact
	dead bool
}

func (s *SImpl) String() string {
	if len(s.Ante) == 0 {
		return s.Cons.String()
	}
	return fmt.Sprintf("%v => %v", s.Ante, s.Cons)
}

type FuncInfo struct {
	Fn   *ssa.Function
	IR   *IR
	Pv   *Prover
	Pre  []*SImpl
	Post []*SImpl
	Inv  []*LoopCand
	Obs  []*Oblig
	preChecked int
}

type LoopCand struct {
	why string
	H    *Block
	F    Fact
	dead bool
	init, step []Fact
}

type Summaries struct {
	P     *Program
	Funcs map[*ssa.Function]*FuncInfo
	Order []*FuncInfo
	Policy InlinePolicy
	Rounds int
	Joins bool // also try invariants at ordinary joins
	Cands int
	Alive int
	Elem map[string]*ElemCand
}

// ElemCand: a package-wide "this field is never nil" predicate.
type ElemCand struct {
	Class string
	dead  bool
	Why   string
}

func dynCallable(p *Program, f *ssa.Function) bool {
	if p.addrTaken[f] {
		return true
	}
	if f.Parent() != nil {
		// a closure that is only ever called directly has known callers
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					mc, ok := in.(*ssa.MakeClosure)
					if !ok || mc.Fn != f {
						continue
					}
					for _, r := range *mc.Referrers() {
						c, ok := r.(*ssa.Call)
						if !ok || c.Call.Value != mc {
							return true
						}
						for _, a := range c.Call.Args {
							if a == ssa.Value(mc) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func newSummaries(p *Program, policy InlinePolicy) *Summaries {
	if p.mods == nil {
		p.computeMods()
	}
	s := &Summaries{P: p, Funcs: map[*ssa.Function]*FuncInfo{}, Policy: policy}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil || !p.internal(f) || s.Funcs[f] != nil {
			return
		}
		if f.Synthetic != "" && f.Name() != "init" {
			return
		}
		s.Funcs[f] = &FuncInfo{Fn: f}
		work = append(work, f)
	}
	for _, f := range p.Funcs {
		if isExported(f) || dynCallable(p, f) {
			add(f)
		}
		// methods of unexported types may be called through interfaces
		if f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() {
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		fi := s.Funcs[f]
		fi.IR = p.buildIR(f, policy)
		fi.IR.promote()
		s.Order = append(s.Order, fi)
		for _, b := range fi.IR.Blocks {
			for _, n := range b.Nodes {
				if (n.Op == OCall || n.Op == ODefer) && n.Callee != nil {
					add(n.Callee)
				}
				for _, a := range n.Args {
					if a.Op == OFunc {
						add(a.Callee)
					}
				}
				if n.Op == OMakeClosure && len(useOf(fi.IR, n)) > 0 {
					add(n.Callee)
				}
			}
		}
	}
	rank := map[*ssa.Function]int{}
	for i, f := range p.Funcs {
		rank[f] = i
	}
	sort.Slice(s.Order, func(i, j int) bool { return rank[s.Order[i].Fn] < rank[s.Order[j].Fn] })
	return s
}

func useOf(ir *IR, x *Node) []*Node {
	var out []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			for _, a := range n.Args {
				if a == x {
					out = append(out, n)
				}
			}
		}
	}
	return out
}

func (s *Summaries) isInternalTarget(n *Node) *FuncInfo {
	if n.Op != OCall || n.Callee == nil {
		return nil
	}
	return s.Funcs[n.Callee]
}

// resultNodes maps result index -> node at a call.
func resultNodes(ir *IR, call *Node) map[int]*Node {
	out := map[int]*Node{}
	if call.Callee == nil && call.Method == nil {
		return out
	}
	if t, ok := call.Typ.(*types.Tuple); ok {
		if ir.extracts == nil {
			ir.extracts = map[*Node]map[int]*Node{}
			for _, b := range ir.Blocks {
				for _, n := range b.Nodes {
					if n.Op == OExtract {
						m := ir.extracts[n.Args[0]]
						if m == nil {
							m = map[int]*Node{}
							ir.extracts[n.Args[0]] = m
						}
						if m[n.Field] == nil {
							m[n.Field] = n
						}
					}
				}
			}
		}
		_ = t
		return ir.extracts[call]
	}
	out[0] = call
	return out
}

func (pv *Prover) sfact(f SFact, env func(string) *Node) (Fact, bool) {
	switch f.K {
	case FLin, FEqLin:
		l := linC(f.L.C)
		for k, v := range f.L.M {
			kind := k[0]
			name := k
			if kind == 'l' {
				name = k[1:]
			}
			n := env(name)
			if n == nil {
				return Fact{}, false
			}
			if kind == 'l' {
				l = l.add(pv.lenOf(n), v)
			} else {
				l = l.add(pv.lin(n), v)
			}
		}
		return Fact{K: f.K, L: l}, true
	}
	n := env(f.On)
	if n == nil {
		return Fact{}, false
	}
	return Fact{K: f.K, N: n, Pol: f.Pol}, true
}

func (s *Summaries) instantiate(pv *Prover, call *Node) []Fact {
	fi := s.Funcs[call.Callee]
	if fi == nil {
		return nil
	}
	res := resultNodes(pv.IR, call)
	env := func(k string) *Node {
		var i int
		fmt.Sscanf(k[1:], "%d", &i)
		if k[0] == 'p' {
			if i < len(call.Args) {
				return call.Args[i]
			}
			return nil
		}
		return res[i]
	}
	var out []Fact
	for _, im := range fi.Post {
		if im.dead {
			continue
		}
		c, ok := pv.sfact(im.Cons, env)
		if !ok {
			continue
		}
		var ante []Fact
		for _, a := range im.Ante {
			f, ok2 := pv.sfact(a, env)
			if !ok2 {
				ok = false
				break
			}
			ante = append(ante, f)
		}
		if !ok {
			continue
		}
		if len(ante) == 0 {
			out = append(out, c)
		} else {
			out = append(out, Fact{K: FImpl, Ante: ante, Cons: []Fact{c}})
		}
	}
	return out
}

// ---- candidates ---------------------------------------------------------------------------------------------

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func isLenType(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return true
	}
	return isString(t)
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func st(c int64, kv ...interface{}) STerm {
	m := map[string]int64{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] += int64(kv[i+1].(int))
	}
	return STerm{c, m}
}

func (s *Summaries) genFunc(fi *FuncInfo) {
	sig := fi.Fn.Signature
	var ptypes []types.Type
	for _, p := range fi.Fn.Params {
		ptypes = append(ptypes, p.Type())
	}
	dyn := dynCallable(s.P, fi.Fn)
	exp := isExported(fi.Fn)
	pre := func(f SFact) { fi.Pre = append(fi.Pre, &SImpl{Cons: f}) }
	if !dyn || exp {
		for i, t := range ptypes {
			p := fmt.Sprintf("p%d", i)
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Signature, *types.Interface, *types.Map:
				if _, isif := t.Underlying().(*types.Interface); isif && exp {
					break
				}
				pre(SFact{K: FNonNil, On: p})
			}
			if exp {
				continue
			}
			if isLenType(t) {
				for _, k := range []int64{1, 2, 3, 4, 5, 8, 9} {
					pre(SFact{K: FLin, L: st(-k, "l"+p, 1)})
				}
			}
			if isIntType(t) {
				if !isUnsigned(t) {
					pre(SFact{K: FLin, L: st(0, p, 1)})
				}
				for j, u := range ptypes {
					if isLenType(u) {
						pre(SFact{K: FLin, L: st(0, fmt.Sprintf("lp%d", j), 1, p, -1)})
						pre(SFact{K: FLin, L: st(-1, fmt.Sprintf("lp%d", j), 1, p, -1)})
					}
				}
				if isUnsigned(t) {
					for _, c := range interestingConsts(fi.Fn) {
						if c >= 0 && c <= 255 {
							pre(SFact{K: FLin, L: st(-c, p, 1)})
							pre(SFact{K: FLin, L: st(c, p, -1)})
						}
					}
				}
			}
		}
	}
	// results
	rs := sig.Results()
	errIdx := -1
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			errIdx = i
		}
	}
	var antes [][]SFact
	antes = append(antes, nil)
	if errIdx >= 0 {
		e := fmt.Sprintf("r%d", errIdx)
		antes = append(antes, []SFact{{K: FNil, On: e}}, []SFact{{K: FNonNil, On: e}})
	}
	for i := 0; i < rs.Len(); i++ {
		if isBoolType(rs.At(i).Type()) && rs.Len() <= 3 {
			r := fmt.Sprintf("r%d", i)
			antes = append(antes, []SFact{{K: FBool, On: r, Pol: true}}, []SFact{{K: FBool, On: r, Pol: false}})
		}
	}
	post := func(a []SFact, f SFact) { fi.Post = append(fi.Post, &SImpl{Ante: a, Cons: f}) }
	for _, a := range antes {
		onBool := len(a) > 0 && a[0].K == FBool
		for i := 0; i < rs.Len(); i++ {
			r := fmt.Sprintf("r%d", i)
			t := rs.At(i).Type()
			if i == errIdx {
				if len(a) == 0 {
					post(a, SFact{K: FNil, On: r})
					post(a, SFact{K: FNonNil, On: r})
				}
				continue
			}
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
				post(a, SFact{K: FNonNil, On: r})
				post(a, SFact{K: FNil, On: r})
			}
			if isLenType(t) {
				for j, pt := range ptypes {
					if !isLenType(pt) {
						continue
					}
					for _, k := range []int64{0, 1, 2} {
						post(a, SFact{K: FLin, L: st(-k, fmt.Sprintf("lp%d", j), 1, "l"+r, -1)})
					}
					for _, k := range []int64{0, 1} {
						post(a, SFact{K: FLin, L: st(-k, "l"+r, 1, fmt.Sprintf("lp%d", j), -1)})
					}
				}
				post(a, SFact{K: FLin, L: st(-1, "l"+r, 1)})
				// results against each other
				for j := 0; j < rs.Len(); j++ {
					if j != i && isIntType(rs.At(j).Type()) {
						post(a, SFact{K: FLin, L: st(0, "l"+r, 1, fmt.Sprintf("r%d", j), -1)})
						post(a, SFact{K: FLin, L: st(-1, "l"+r, 1, fmt.Sprintf("r%d", j), -1)})
						for k, pt := range ptypes {
							if isLenType(pt) {
								post(a, SFact{K: FLin, L: st(0, fmt.Sprintf("lp%d", k), 1, "l"+r, -1, fmt.Sprintf("r%d", j), -1)})
							}
						}
					}
				}
			}
			if isIntType(t) {
				post(a, SFact{K: FLin, L: st(0, r, 1)})
				post(a, SFact{K: FLin, L: st(-1, r, 1)})
				post(a, SFact{K: FLin, L: st(1, r, 1)})
				for j, pt := range ptypes {
					p := fmt.Sprintf("p%d", j)
					if isLenType(pt) {
						post(a, SFact{K: FLin, L: st(0, "l"+p, 1, r, -1)})
						post(a, SFact{K: FLin, L: st(-1, "l"+p, 1, r, -1)})
					} else if isIntType(pt) {
						post(a, SFact{K: FLin, L: st(0, r, 1, p, -1)})
						post(a, SFact{K: FLin, L: st(-1, r, 1, p, -1)})
						post(a, SFact{K: FLin, L: st(0, p, 1, r, -1)})
					}
				}
				if _, _, ok := intRange(t); !ok {
					post(a, SFact{K: FLin, L: st(1<<32, r, -1)})
				}
			}
		}
		if onBool {
			for j, pt := range ptypes {
				p := fmt.Sprintf("p%d", j)
				if isPtrLike(pt) && !isLenType(pt) {
					post(a, SFact{K: FNonNil, On: p})
				}
				if isLenType(pt) {
					post(a, SFact{K: FLin, L: st(-1, "l"+p, 1)})
				}
			}
		}
	}
}

func interestingConsts(f *ssa.Function) []int64 {
	seen := map[int64]bool{}
	var out []int64
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if v, ok := constant.Int64Val(c.Value); ok && v > 0 && v < 1<<31 && !seen[v] {
						seen[v] = true
						out = append(out, v)
					}
				}
			}
		}
	}
	return out
}

// genLoops creates the loop-invariant candidates of one function.
func (s *Summaries) genLoops(fi *FuncInfo) {
	ir, pv := fi.IR, fi.Pv
	for _, l := range ir.Loops {
		h := l.Header
		var ints, lens, ptrs []*Node
		for _, ph := range pv.phisOf(h) {
			if len(ph.Args) != len(h.Preds) {
				continue
			}
			switch {
			case isIntType(ph.Typ):
				ints = append(ints, ph)
			case isLenType(ph.Typ):
				lens = append(lens, ph)
			case isPtrLike(ph.Typ):
				ptrs = append(ptrs, ph)
			}
		}
		// anything sliceable used inside the loop and defined before it, and bounds compared inside it
		avail := func(n *Node) bool {
			n = n.canon()
			if n.Op == OConst || n.Op == OParam || n.Op == OFreeVar || n.Op == OInit {
				return true
			}
			return n.Blk != nil && n.Blk != h && n.Blk.dominates(h) && !l.Blocks[n.Blk]
		}
		conts := map[*Node]bool{}
		bounds := map[*Node]bool{}
		for _, b := range ir.Blocks {
			if !l.Blocks[b] {
				continue
			}
			for _, n := range b.Nodes {
				switch n.Op {
				case OIndexAddr, OIndex, OSlice, OLookup:
					if isLenType(n.Args[0].Typ) {
						conts[n.Args[0].canon()] = true
					}
				case OBuiltin:
					if n.Name == "len" || n.Name == "cap" {
						conts[n.Args[0].canon()] = true
					}
				case OBin:
					if isIntType(n.Args[0].Typ) {
						for _, a := range n.Args {
							a = a.canon()
							if a.Op != OConst {
								bounds[a] = true
							}
						}
					}
				}
			}
		}
		// values flowing in from outside
		for _, ph := range append(append([]*Node{}, lens...), ints...) {
			for i, p := range h.Preds {
				if !l.Blocks[p] {
					a := ph.Args[i].canon()
					if isLenType(a.Typ) {
						conts[a] = true
						o := a
						for o.Op == OSlice {
							o = o.Args[0].canon()
							if isLenType(o.Typ) {
								conts[o] = true
							}
						}
					}
				}
			}
		}
		for _, p := range ir.Params {
			if isLenType(p.Typ) {
				conts[p] = true
			}
		}
		inLoopPhi := func(n *Node) bool { return n.Blk == h && (n.Op == OPhi || n.Op == OMemPhi) }
		var cl, bl []*Node
		for n := range conts {
			if avail(n) || inLoopPhi(n) {
				cl = append(cl, n)
			}
		}
		for n := range bounds {
			if avail(n) && !isLenBuiltin(n) {
				bl = append(bl, n)
			}
		}
		sortNodes(cl)
		sortNodes(bl)
		add := func(f Fact) { fi.Inv = append(fi.Inv, &LoopCand{H: h, F: f}) }
		ge := func(x Lin) {
			if !x.isConst() {
				add(Fact{K: FLin, L: x})
			}
		}
		initOf := func(ph *Node) *Node {
			var r *Node
			for i, p := range h.Preds {
				if !l.Blocks[p] {
					if r != nil && r != ph.Args[i].canon() {
						return nil
					}
					r = ph.Args[i].canon()
				}
			}
			return r
		}
		for _, p := range ints {
			lp := pv.lin(p)
			ge(lp)
			ge(lp.plus(1))
			ge(lp.plus(-1))
			if in := initOf(p); in != nil {
				ge(lp.add(pv.lin(in), -1))
				ge(pv.lin(in).add(lp, -1))
			}
			for _, x := range cl {
				ge(pv.lenOf(x).add(lp, -1))
				ge(pv.lenOf(x).add(lp, -1).plus(-1))
			}
			for _, x := range bl {
				if x != p {
					ge(pv.lin(x).add(lp, -1))
					ge(lp.add(pv.lin(x), -1))
				}
			}
			for _, q := range ints {
				if q.ID < p.ID {
					a, b := initOf(p), initOf(q)
					if a != nil && b != nil {
						d0 := pv.lin(a).add(pv.lin(b), -1)
						d := lp.add(pv.lin(q), -1).add(d0, -1)
						ge(d)
						ge(d.scale(-1))
					}
					ge(lp.add(pv.lin(q), -1))
					ge(pv.lin(q).add(lp, -1))
				}
			}
			for _, sl := range lens {
				// offset plus rest never exceeds the whole
				for _, x := range cl {
					if x != sl && avail(x) {
						ge(pv.lenOf(x).add(pv.lenOf(sl), -1).add(lp, -1))
						ge(pv.lenOf(sl).add(lp, 1).add(pv.lenOf(x), -1))
					}
				}
				if in := initOf(p); in != nil {
					if li := initOf(sl); li != nil {
						d := lp.add(pv.lin(in), -1).add(pv.lenOf(sl), -1).add(pv.lenOf(li), 1)
						ge(d)
						ge(d.scale(-1))
						d = lp.add(pv.lin(in), -1).add(pv.lenOf(sl), 1).add(pv.lenOf(li), -1)
						ge(d)
						ge(d.scale(-1))
					}
				}
			}
		}
		for _, p := range lens {
			lp := pv.lenOf(p)
			ge(lp.plus(-1))
			ge(lp.plus(-2))
			for _, x := range cl {
				if x == p {
					continue
				}
				ge(pv.lenOf(x).add(lp, -1))
				ge(lp.add(pv.lenOf(x), -1))
				ge(pv.lenOf(x).add(lp, -1).plus(-1))
			}
			for _, q := range lens {
				if q != p {
					ge(lp.add(pv.lenOf(q), -1))
				}
			}
		}
		for _, p := range ptrs {
			add(Fact{K: FNonNil, N: p})
			// set together with a counter: non-nil only after the first round
			for _, q := range ints {
				add(Fact{K: FImpl, Ante: []Fact{{K: FNonNil, N: p}}, Cons: []Fact{{K: FLin, L: pv.lin(q).plus(-1)}}})
			}
		}
	}
	if s.Joins {
		s.genJoins(fi)
	}
	// deduplicate
	seen := map[string]bool{}
	var out []*LoopCand
	for _, c := range fi.Inv {
		k := fmt.Sprintf("%d|%s", c.H.ID, factKey(c.F))
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	fi.Inv = out
}

func isLenBuiltin(n *Node) bool { return n.Op == OBuiltin && (n.Name == "len" || n.Name == "cap") }

func factKey(f Fact) string {
	if f.K == FLin {
		var ks []string
		for a, c := range f.L.M {
			ks = append(ks, fmt.Sprintf("%d.%d:%d", a.Kind, a.N.ID, c))
		}
		sort.Strings(ks)
		return "L" + strings.Join(ks, ",") + fmt.Sprint(f.L.C)
	}
	if f.K == FImpl {
		k := "I"
		for _, a := range f.Ante {
			k += factKey(a) + ";"
		}
		k += "=>"
		for _, a := range f.Cons {
			k += factKey(a) + ";"
		}
		return k
	}
	return fmt.Sprintf("%d.%d.%v", f.K, f.N.canon().ID, f.Pol)
}

// substFact rewrites a header fact for the incoming edge i (phi -> its argument).
func (pv *Prover) substFact(f Fact, h *Block, i int) Fact {
	sub := func(n *Node) *Node {
		n = n.canon()
		if n.Blk == h && (n.Op == OPhi || n.Op == OMemPhi) && len(n.Args) == len(h.Preds) {
			return n.Args[i].canon()
		}
		return n
	}
	switch f.K {
	case FLin, FEqLin, FNeq:
		l := linC(f.L.C)
		for a, c := range f.L.M {
			n := sub(a.N)
			switch {
			case n == a.N:
				l = l.add(linA(a), c)
			case a.Kind == AVal:
				l = l.add(pv.lin(n), c)
			case a.Kind == ALen:
				l = l.add(pv.lenOf(n), c)
			default:
				l = l.add(pv.capOf(n), c)
			}
		}
		return Fact{K: f.K, L: l}
	case FImpl:
		g := Fact{K: FImpl}
		for _, a := range f.Ante {
			g.Ante = append(g.Ante, pv.substFact(a, h, i))
		}
		for _, a := range f.Cons {
			g.Cons = append(g.Cons, pv.substFact(a, h, i))
		}
		return g
	}
	return Fact{K: f.K, N: sub(f.N), Pol: f.Pol}
}

// ---- fixpoint -----------------------------------------------------------------------------------------------

// genJoins adds candidates at ordinary joins: a slice that merges there is no longer than the slices it was cut from.
func (s *Summaries) genJoins(fi *FuncInfo) {
	ir, pv := fi.IR, fi.Pv
	for _, b := range ir.Blocks {
		if len(b.Preds) < 2 || b.isLoopHeader() {
			continue
		}
		for _, ph := range pv.phisOf(b) {
			if ph.Op != OPhi || len(ph.Args) != len(b.Preds) || !isLenType(ph.Typ) {
				continue
			}
			seen := map[*Node]bool{ph: true}
			var srcs []*Node
			var walk func(n *Node, d int)
			walk = func(n *Node, d int) {
				n = n.canon()
				if seen[n] || d > 12 || len(srcs) >= 6 || !isLenType(n.Typ) {
					return
				}
				seen[n] = true
				if n.Op == OParam || n.Op == OFreeVar || n.Op == OInit || n.Blk != nil && n.Blk != b && n.Blk.dominates(b) {
					srcs = append(srcs, n)
				}
				switch n.Op {
				case OPhi, OSlice:
					for i, a := range n.Args {
						if n.Op == OSlice && i > 0 {
							break
						}
						walk(a, d+1)
					}
				case OExtract:
					c := n.Args[0].canon()
					if s.isInternalTarget(c) != nil {
						for _, a := range c.Args {
							if types.Identical(a.Typ, n.Typ) {
								walk(a, d+1)
							}
						}
					}
				case OCall:
					if s.isInternalTarget(n) != nil {
						for _, a := range n.Args {
							if types.Identical(a.Typ, n.Typ) {
								walk(a, d+1)
							}
						}
					}
				}
			}
			for _, a := range ph.Args {
				walk(a, 0)
			}
			for _, x := range srcs {
				d := pv.lenOf(x).add(pv.lenOf(ph), -1)
				if !d.isConst() {
					fi.Inv = append(fi.Inv, &LoopCand{H: b, F: Fact{K: FLin, L: d}}, &LoopCand{H: b, F: Fact{K: FLin, L: d.plus(-1)}})
				}
			}
		}
	}
}

func (fi *FuncInfo) loadInv() {
	fi.Pv.inv = map[*Block][]Fact{}
	for _, c := range fi.Inv {
		if !c.dead {
			fi.Pv.inv[c.H] = append(fi.Pv.inv[c.H], c.F)
		}
	}
	fi.Pv.resetMemo()
}

func (fi *FuncInfo) preFacts() []Fact {
	var out []Fact
	env := func(k string) *Node {
		var i int
		fmt.Sscanf(k[1:], "%d", &i)
		if k[0] == 'p' && i < len(fi.IR.Params) {
			return fi.IR.Params[i]
		}
		return nil
	}
	for _, im := range fi.Pre {
		if im.dead {
			continue
		}
		if f, ok := fi.Pv.sfact(im.Cons, env); ok {
			out = append(out, f)
		}
	}
	return out
}

const houdiniDepth = 3

func (s *Summaries) checkLoops(fi *FuncInfo) bool {
	changed := false
	for {
		fi.loadInv()
		again := false
		for _, c := range fi.Inv {
			if c.dead {
				continue
			}
			for i, p := range c.H.Preds {
				g := fi.Pv.substFact(c.F, c.H, i)
				assume := s.assume(fi)
				if ef, ok := edgeFact(p, c.H); ok {
					assume = append(assume, ef)
				}
				if !fi.Pv.prove(p, 1<<30, g, assume, houdiniDepth) {
					c.dead = true
					c.why = fmt.Sprintf("round %d edge from b%d: %v", s.Rounds, p.ID, g)
					again = true
					changed = true
					break
				}
			}
		}
		if !again {
			return changed
		}
	}
}

func (s *Summaries) assume(fi *FuncInfo) []Fact { return fi.preFacts() }

func (s *Summaries) checkPost(fi *FuncInfo) bool {
	changed := false
	for _, im := range fi.Post {
		if im.dead {
			continue
		}
		ok := true
		for _, r := range fi.IR.Returns {
			env := func(k string) *Node {
				var i int
				fmt.Sscanf(k[1:], "%d", &i)
				if k[0] == 'p' {
					return fi.IR.Params[i]
				}
				if i < len(r.Args) {
					return r.Args[i]
				}
				return nil
			}
			assume := s.assume(fi)
			for _, a := range im.Ante {
				f, k := fi.Pv.sfact(a, env)
				if !k {
					ok = false
					break
				}
				assume = append(assume, f)
			}
			if !ok {
				break
			}
			g, k := fi.Pv.sfact(im.Cons, env)
			if !k || !fi.Pv.prove(r.Blk, r.Idx, g, assume, houdiniDepth) {
				ok = false
				break
			}
		}
		if !ok {
			im.dead = true
			changed = true
		}
	}
	return changed
}

type preSite struct {
	caller *FuncInfo
	call   *Node
	im     *SImpl
	callee *FuncInfo
}

func (s *Summaries) checkPreSites(fi *FuncInfo) []preSite {
	var failed []preSite
	for _, b := range fi.IR.Blocks {
		for _, n := range b.Nodes {
			t := s.isInternalTarget(n)
			if t == nil {
				continue
			}
			env := func(k string) *Node {
				var i int
				fmt.Sscanf(k[1:], "%d", &i)
				if i < len(n.Args) {
					return n.Args[i]
				}
				return nil
			}
			for _, im := range t.Pre {
				if im.dead {
					continue
				}
				g, ok := fi.Pv.sfact(im.Cons, env)
				if !ok || !fi.Pv.prove(b, n.Idx, g, s.assume(fi), houdiniDepth) {
					failed = append(failed, preSite{fi, n, im, t})
				}
			}
		}
	}
	return failed
}

func parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (s *Summaries) solve() {
	for _, fi := range s.Order {
		fi.Pv = newProver(fi.IR, s)
		s.genFunc(fi)
	}
	parallel(len(s.Order), func(i int) { s.genLoops(s.Order[i]) })
	for _, fi := range s.Order {
		s.Cands += len(fi.Pre) + len(fi.Post) + len(fi.Inv)
	}
	// A function is re-examined when something it relies on was weakened.
	dirty := map[*FuncInfo]bool{}
	callersOf := map[*FuncInfo]map[*FuncInfo]bool{}
	for _, fi := range s.Order {
		dirty[fi] = true
		for _, b := range fi.IR.Blocks {
			for _, n := range b.Nodes {
				if t := s.isInternalTarget(n); t != nil {
					if callersOf[t] == nil {
						callersOf[t] = map[*FuncInfo]bool{}
					}
					callersOf[t][fi] = true
				}
			}
		}
	}
	for round := 0; round < 60; round++ {
		s.Rounds = round + 1
		var list []*FuncInfo
		for _, fi := range s.Order {
			if dirty[fi] {
				list = append(list, fi)
			}
		}
		if len(list) == 0 {
			break
		}
		dirty = map[*FuncInfo]bool{}
		type out struct {
			post bool
			pre  []preSite
			kill []*SImpl
		}
		res := make([]out, len(list))
		// posts killed during a round are only published after it (all provers read s while running)
		parallel(len(list), func(i int) {
			fi := list[i]
			s.checkLoops(fi)
			res[i].kill = s.failingPosts(fi)
			res[i].pre = s.checkPreSites(fi)
		})
		for i, fi := range list {
			if len(res[i].kill) > 0 {
				for _, im := range res[i].kill {
					im.dead = true
				}
				for c := range callersOf[fi] {
					dirty[c] = true
				}
			}
			for _, ps := range res[i].pre {
				if !ps.im.dead {
					ps.im.dead = true
					dirty[ps.callee] = true
				}
			}
		}
		if os.Getenv("DXDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "round %d: %d functions\n", round, len(list))
		}
	}
	for _, fi := range s.Order {
		fi.loadInv()
		for _, im := range append(append([]*SImpl{}, fi.Pre...), fi.Post...) {
			if !im.dead {
				s.Alive++
			}
		}
		for _, c := range fi.Inv {
			if !c.dead {
				s.Alive++
			}
		}
	}
}

func (s *Summaries) failingPosts(fi *FuncInfo) []*SImpl {
	var saved []*SImpl
	live := map[*SImpl]bool{}
	for _, im := range fi.Post {
		if !im.dead {
			live[im] = true
		}
	}
	_ = saved
	var out []*SImpl
	for _, im := range fi.Post {
		if !live[im] {
			continue
		}
		if !s.postHolds(fi, im) {
			out = append(out, im)
		}
	}
	return out
}

func (s *Summaries) postHolds(fi *FuncInfo, im *SImpl) bool {
	for _, r := range fi.IR.Returns {
		env := func(k string) *Node {
			var i int
			fmt.Sscanf(k[1:], "%d", &i)
			if k[0] == 'p' {
				return fi.IR.Params[i]
			}
			if i < len(r.Args) {
				return r.Args[i]
			}
			return nil
		}
		assume := s.assume(fi)
		for _, a := range im.Ante {
			f, k := fi.Pv.sfact(a, env)
			if !k {
				return false
			}
			assume = append(assume, f)
		}
		g, k := fi.Pv.sfact(im.Cons, env)
		if !k || !fi.Pv.prove(r.Blk, r.Idx, g, assume, houdiniDepth) {
			im.why = fmt.Sprintf("round %d return in b%d at %s: %v", s.Rounds, r.Blk.ID, s.P.pos(r.Pos), g)
			return false
		}
	}
	return true
}

var _ = token.ADD
