package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Access-path separation. A function's writes are described per location class by the parameters they are reached
// from; the value graph is taken to be a tree (a value is not stored inside itself and two pointer arguments of a
// call are different objects), which is what the library's own code relies on.

type Roots uint64

const rootUnknown Roots = 1 << 63

func rootDirect(i int) Roots {
	if i > 30 {
		return rootUnknown
	}
	return 1 << uint(2*i)
}
func rootDeep(i int) Roots {
	if i > 30 {
		return rootUnknown
	}
	return 1 << uint(2*i+1)
}

const directBits Roots = 0x1555555555555555

// deepen: everything reached by one more load
func deepen(r Roots) Roots {
	d := r & directBits
	return (r &^ directBits) | d<<1
}

type aliasInfo struct {
	p    *Program
	ret  map[*ssa.Function][]Roots // roots of pointer-like results (0 = fresh or nil)
	mods map[*ssa.Function]map[string]Roots
	memo map[ssa.Value]Roots
	busy map[ssa.Value]bool
	grew bool
}

func (a *aliasInfo) rootsOf(v ssa.Value) Roots {
	if a.busy[v] {
		return a.memo[v]
	}
	a.busy[v] = true // evaluated once per round; rounds repeat until nothing grows
	r := a.roots0(v) | a.memo[v]
	if r != a.memo[v] {
		a.memo[v] = r
		a.grew = true
	}
	return r
}

func (a *aliasInfo) roots0(v ssa.Value) Roots {
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function:
		return 0
	case *ssa.Alloc:
		return 0
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return rootDirect(i)
			}
		}
	case *ssa.FieldAddr:
		return a.rootsOf(x.X)
	case *ssa.IndexAddr:
		if arenaSlot(x) {
			return 0
		}
		return a.rootsOf(x.X)
	case *ssa.Slice:
		return a.rootsOf(x.X)
	case *ssa.ChangeType:
		return a.rootsOf(x.X)
	case *ssa.Convert:
		return a.rootsOf(x.X)
	case *ssa.ChangeInterface:
		return a.rootsOf(x.X)
	case *ssa.MakeInterface:
		return a.rootsOf(x.X)
	case *ssa.Phi:
		var r Roots
		for _, e := range x.Edges {
			r |= a.rootsOf(e)
		}
		return r
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			_ = g
			return rootUnknown
		}
		// a load: from a local variable, whatever was stored there; otherwise one level deeper
		base := localBase(x.X)
		r := deepen(a.rootsOf(x.X))
		if base != nil {
			r |= a.storedIn(base)
		}
		return r
	case *ssa.Field:
		return a.rootsOf(x.X)
	case *ssa.Index:
		return a.rootsOf(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.callRoots(c, x.Index)
		}
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return a.rootsOf(t.X)
		}
	case *ssa.TypeAssert:
		return a.rootsOf(x.X)
	case *ssa.Call:
		return a.callRoots(x, 0)
	}
	return rootUnknown
}

func localBase(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

func (a *aliasInfo) storedIn(al *ssa.Alloc) Roots {
	var r Roots
	for _, b := range al.Parent().Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && localBase(s.Addr) == al && pointerish(s.Val.Type()) {
				r |= a.rootsOf(s.Val)
			}
		}
	}
	return r
}

func pointerish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Info()&types.IsString != 0
	}
	return true
}

func (a *aliasInfo) callRoots(c *ssa.Call, idx int) Roots {
	cc := c.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" {
			return a.rootsOf(cc.Args[0])
		}
		return 0
	}
	g := cc.StaticCallee()
	if g == nil || !a.p.internal(g) {
		if n := extFnName(g); n == "sync.Pool.Get" || n == "errors.New" || n == "fmt.Errorf" {
			return 0 // handed over by the pool: owned by the taker
		}
		// results of library calls are either fresh or point into their arguments
		var r Roots
		for _, x := range cc.Args {
			if pointerish(x.Type()) {
				r |= a.rootsOf(x)
			}
		}
		if g == nil {
			return rootUnknown
		}
		return r
	}
	rs := a.ret[g]
	if idx >= len(rs) {
		return 0
	}
	return a.translate(rs[idx], cc.Args)
}

func extFnName(f *ssa.Function) string {
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return ""
	}
	o := f.Object()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return o.Pkg().Name() + "." + tname(t) + "." + o.Name()
	}
	return o.Pkg().Name() + "." + o.Name()
}

func (a *aliasInfo) translate(r Roots, args []ssa.Value) Roots {
	out := r & rootUnknown
	for i, x := range args {
		if r&rootDirect(i) != 0 {
			out |= a.rootsOf(x)
		}
		if r&rootDeep(i) != 0 {
			out |= deepen(a.rootsOf(x))
		}
	}
	return out
}

// alias computes, to a fixpoint, result roots and modified classes with their roots.
func (p *Program) alias() *aliasInfo {
	if p.al != nil {
		return p.al
	}
	a := &aliasInfo{p: p, ret: map[*ssa.Function][]Roots{}, mods: map[*ssa.Function]map[string]Roots{}, memo: map[ssa.Value]Roots{}}
	for _, f := range p.Funcs {
		a.ret[f] = make([]Roots, f.Signature.Results().Len())
		a.mods[f] = map[string]Roots{}
	}
	taken := p.fieldAddrTaken()
	byType := map[string][]string{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					c, t, _ := classOfAddr(fa)
					if taken[c] {
						byType["*"+tname(t)] = append(byType["*"+tname(t)], c)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		a.busy, a.grew = map[ssa.Value]bool{}, false
		for _, f := range p.Funcs {
			m := a.mods[f]
			add := func(c string, r Roots) {
				if m[c]|r != m[c] {
					m[c] |= r
					changed = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Return:
						for i, v := range x.Results {
							if !pointerish(v.Type()) {
								continue
							}
							r := a.rootsOf(v)
							if a.ret[f][i]|r != a.ret[f][i] {
								a.ret[f][i] |= r
								changed = true
							}
						}
					case *ssa.Store:
						c, t, _ := classOfAddr(x.Addr)
						r := a.rootsOf(x.Addr)
						if _, ok := x.Addr.(*ssa.Global); ok {
							r = rootUnknown
						}
						cs := map[string]bool{}
						subClasses(c, t, cs)
						for c2 := range cs {
							add(c2, r)
						}
						for _, c2 := range byType[c] {
							add(c2, r)
						}
					case *ssa.MapUpdate:
						add("map", a.rootsOf(x.Map))
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						a.callModRoots(ci, add)
					}
				}
			}
		}
		changed = changed || a.grew
	}
	p.al = a
	return a
}

func (a *aliasInfo) callModRoots(ci ssa.CallInstruction, add func(string, Roots)) {
	p := a.p
	cc := ci.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append", "copy":
			if ld, ok := cc.Args[0].(*ssa.UnOp); ok && bi.Name() == "append" {
				if _, ok := ld.X.(*ssa.FieldAddr); ok {
					return // only writes beyond the end of the slice held in the field: no live element
				}
			}
			if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				cs := map[string]bool{}
				subClasses("[]"+tname(s.Elem()), s.Elem(), cs)
				for c := range cs {
					add(c, a.rootsOf(cc.Args[0]))
				}
			}
		}
		return
	}
	g := cc.StaticCallee()
	if g != nil && p.internal(g) {
		for c, r := range a.mods[g] {
			add(c, a.translate(r, cc.Args))
		}
		return
	}
	p.callMods(ci, func(c string) { add(c, rootUnknown) })
}

// ---- IR side ------------------------------------------------------------------------------------------------

// up: the object n was loaded from, or nil
func (ir *IR) up(n *Node) *Node {
	n = origin(n)
	switch n.Op {
	case OInit, OHavoc, OMemPhi:
		if n.MemLoc != nil {
			return origin(n.MemLoc.Root)
		}
	case OLoad:
		return origin(ir.loc(n.Args[0]).Root)
	case OBuiltin:
		if n.Name == "append" {
			return ir.up(n.Args[0])
		}
	case OChangeIface, OMakeIface, OConvert:
		return ir.up(n.Args[0])
	}
	return nil
}

func (ir *IR) ancestors(n *Node) []*Node {
	var out []*Node
	for i := 0; i < 12; i++ {
		u := ir.up(n)
		if u == nil || u == n {
			break
		}
		out = append(out, u)
		n = u
	}
	return out
}

// freshCall: an internal call whose result does not come from its arguments or from globals
func (ir *IR) freshCall(n *Node) bool {
	n = origin(n)
	if n.Op != OCall || n.Callee == nil || !ir.P.internal(n.Callee) {
		return false
	}
	rs := ir.P.alias().ret[n.Callee]
	return len(rs) == 1 && rs[0]&rootUnknown == 0 && rs[0]&directBits == 0 && ir.P.returnsSlot(n.Callee)
}

// separate: the two pointers denote different objects (or different backing arrays)
func (ir *IR) separate(a, b *Node) bool {
	if noAlias(a, b) {
		return true
	}
	a, b = origin(a), origin(b)
	if a == b {
		return false
	}
	if ir.newAfter(a, b, 0) || ir.newAfter(b, a, 0) {
		return true
	}
	aa, ab := ir.ancestors(a), ir.ancestors(b)
	for _, x := range aa {
		if x == b {
			return true
		}
	}
	for _, x := range ab {
		if x == a {
			return true
		}
	}
	ta, tb := a, b
	if len(aa) > 0 {
		ta = aa[len(aa)-1]
	}
	if len(ab) > 0 {
		tb = ab[len(ab)-1]
	}
	if ta != tb {
		base := func(n *Node) bool { return n.Op == OParam || isFresh(n) || ir.freshCall(n) }
		if ta.Op == OParam && tb.Op == OParam {
			return true
		}
		if base(ta) && base(tb) && len(aa) == 0 && len(ab) == 0 {
			return true
		}
	}
	return false
}

// returnsSlot: every returned pointer is a new object: an allocation, the slot just added to an arena, or the result
// of another such function.
func (p *Program) returnsSlot(f *ssa.Function) bool {
	if p.slot == nil {
		p.slot = map[*ssa.Function]int{}
	}
	switch p.slot[f] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		return true // recursion: assume, the other returns decide
	}
	p.slot[f] = 3
	ok := true
	var isNew func(v ssa.Value, d int) bool
	isNew = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Alloc:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && !isNew(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.IndexAddr:
			// &arena[len(arena)-1] or an element of a slice field of an arena that was just extended
			return isLastIndex(x)
		case *ssa.Call:
			g := x.Common().StaticCallee()
			return g != nil && p.internal(g) && p.returnsSlot(g)
		}
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, isr := in.(*ssa.Return); isr && len(r.Results) > 0 {
				n++
				if !isNew(r.Results[0], 0) {
					ok = false
				}
			}
		}
	}
	if ok && n > 0 {
		p.slot[f] = 1
	} else {
		p.slot[f] = 2
		ok = false
	}
	return ok
}

// isLastIndex: x[len(x)-1] or x[l] where l is the length before the extension
func isLastIndex(x *ssa.IndexAddr) bool {
	b, ok := x.Index.(*ssa.BinOp)
	if !ok {
		return false
	}
	c, ok := b.X.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := c.Common().Value.(*ssa.Builtin)
	return ok && bi.Name() == "len"
}

// arenaSlot: the address of the last element of a slice field that was extended by one on every path to this point:
// a new object.
func arenaSlot(x *ssa.IndexAddr) bool {
	if !isLastIndex(x) {
		return false
	}
	ld, ok := x.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	grows := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if in == ssa.Instruction(x) {
				return false
			}
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			f2, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || f2.X != fa.X || f2.Field != fa.Field {
				continue
			}
			switch v := st.Val.(type) {
			case *ssa.Call:
				if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					return true
				}
			case *ssa.Slice:
				if h, ok := v.High.(*ssa.BinOp); ok && v.Low == nil {
					if k, ok := h.Y.(*ssa.Const); ok && k.Int64() == 1 {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock) bool // an extension is met on every path from the entry to b
	back = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if grows(b) {
			return true
		}
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			if !back(p) {
				return false
			}
		}
		return true
	}
	return back(x.Block())
}

// callAffects: the call may change location l
func (ir *IR) callAffects(d *Node, l Loc) bool {
	if d.Op != OCall || d.Callee == nil || !ir.P.internal(d.Callee) {
		return true
	}
	r := ir.P.alias().mods[d.Callee][l.Class]
	if r == 0 {
		return false
	}
	if r&rootUnknown != 0 {
		return true
	}
	root := origin(l.Root)
	anc := ir.ancestors(root)
	for i, a := range d.Args {
		if !pointerish(a.Typ) {
			continue
		}
		ao := origin(a)
		if r&rootDirect(i) != 0 && !ir.separate(ao, root) {
			return true
		}
		if r&rootDeep(i) != 0 {
			hit := false
			for _, x := range anc {
				if x == ao {
					hit = true
				}
			}
			if hit {
				return true
			}
			// unrelated bases
			tb, ta := root, ao
			if len(anc) > 0 {
				tb = anc[len(anc)-1]
			}
			if aa := ir.ancestors(ao); len(aa) > 0 {
				ta = aa[len(aa)-1]
				related := false
				for _, x := range aa {
					if x == root {
						related = true // reached from root, cannot reach root
					}
					for _, y := range anc {
						if x == y {
							related = true // siblings under a common ancestor
						}
					}
				}
				if related {
					continue
				}
			} else if ao == root {
				continue // reaches strictly deeper objects only
			}
			if ir.separateBases(ta, tb, d) {
				continue
			}
			return true
		}
	}
	return false
}

func (ir *IR) separateBases(a, b *Node, at *Node) bool {
	a, b = origin(a), origin(b)
	if a == b {
		return true
	}
	if a.Op == OConst || b.Op == OConst {
		return true
	}
	if a.Op == OParam && b.Op == OParam {
		return true
	}
	if isFresh(a) && ir.mem.noesc[a] || isFresh(b) && ir.mem.noesc[b] {
		return true
	}
	return noAlias(a, b)
}

// newAfter: n is an object created after b was computed
func (ir *IR) newAfter(n, b *Node, d int) bool {
	n = origin(n)
	if d > 4 || n == b {
		return false
	}
	switch {
	case n.Op == OPhi:
		for _, a := range n.Args {
			if !ir.newAfter(a, b, d+1) {
				return false
			}
		}
		return len(n.Args) > 0
	case n.Op == OConst:
		return true
	case isFresh(n), ir.freshCall(n):
		switch b.Op {
		case OParam, OFreeVar, OGlobal, OConst, OInit:
			return true
		}
		return domNode(b, n)
	}
	return false
}
