package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The analysis IR: go/ssa with small callees inlined, so that a rule sees the same program whether a piece of
// code stands in its function or has been moved to a helper.

type Op int

const (
	OConst Op = iota
	OParam
	OFreeVar
	OGlobal
	OFunc
	OPhi
	OBin
	OUn // ! - ^
	OLoad
	OStore
	OAlloc
	OFieldAddr
	OField
	OIndexAddr
	OIndex
	OLookup
	OMapUpdate
	OSlice
	OMakeSlice
	OMakeMap
	OMakeIface
	OMakeClosure
	OConvert
	OChangeType
	OChangeIface
	OTypeAssert
	OExtract
	OCall
	OBuiltin
	ORange
	ONext
	OPanic
	OReturn
	OIf
	OJump
	ODefer
	ORunDefers
	OOther
	// synthetic, introduced by memory promotion
	OInit   // content of a location before the function (or the analysed region) wrote it
	OHavoc  // content of a location after a call or store that may have changed it
	OMemPhi // join of contents
	OAssume
)

var opNames = map[Op]string{OConst: "const", OParam: "param", OFreeVar: "freevar", OGlobal: "global", OFunc: "func", OPhi: "phi", OBin: "bin", OUn: "un", OLoad: "load", OStore: "store", OAlloc: "alloc", OFieldAddr: "fieldaddr", OField: "field", OIndexAddr: "indexaddr", OIndex: "index", OLookup: "lookup", OMapUpdate: "mapupdate", OSlice: "slice", OMakeSlice: "makeslice", OMakeMap: "makemap", OMakeIface: "makeiface", OMakeClosure: "closure", OConvert: "convert", OChangeType: "changetype", OChangeIface: "changeiface", OTypeAssert: "typeassert", OExtract: "extract", OCall: "call", OBuiltin: "builtin", ORange: "range", ONext: "next", OPanic: "panic", OReturn: "return", OIf: "if", OJump: "jump", ODefer: "defer", ORunDefers: "rundefers", OOther: "other", OInit: "init", OHavoc: "havoc", OMemPhi: "memphi"}

type Node struct {
	ID      int
	Op      Op
	Typ     types.Type
	Args    []*Node
	Blk     *Block
	Idx     int // position in block (assigned by finish)
	Const   constant.Value
	IsNil   bool // OConst: nil / zero value without constant
	Field   int  // OFieldAddr, OField, OExtract
	Tok     token.Token
	Callee  *ssa.Function // OCall static, OFunc, OMakeClosure
	Method  *types.Func   // OCall invoke
	Name    string        // builtin / global / param name
	CommaOk bool
	Pos     token.Pos
	Frame   *Frame
	Src     ssa.Value
	Lo, Hi, Max bool // OSlice: which bounds are present in Args[1:]
	Key     string // synthetic memory nodes
	repl    *Node
	Forced  bool // fixed by specialisation
	VerIn   int
	MemLoc  *Loc // synthetic memory nodes: the location they are the content of
}

// Frame is one activation in the inlining tree.
type Frame struct {
	Fn     *ssa.Function
	Parent *Frame
	Call   token.Pos
}

func (f *Frame) chain(p *Program) string {
	var s []string
	for x := f; x != nil; x = x.Parent {
		n := fnName(x.Fn)
		if x.Parent != nil {
			n += " (inlined at " + p.pos(x.Call) + ")"
		}
		s = append(s, n)
	}
	return strings.Join(s, " <- ")
}

type Block struct {
	ID     int
	Preds  []*Block
	Succs  []*Block
	Nodes  []*Node // last one is the terminator
	idom   *Block
	dom    []*Block // dominator tree children
	pre, post int
	rpo    int
	frame  *Frame
	loop   *Loop
}

type Loop struct {
	Header *Block
	Blocks map[*Block]bool
	Parent *Loop
	Latches []*Block
}

type IR struct {
	P       *Program
	Fn      *ssa.Function
	Entry   *Block
	Blocks  []*Block // reachable, in reverse postorder
	Params  []*Node
	Free    []*Node
	Returns []*Node
	Loops   []*Loop
	nid     int
	bid     int
	consts  map[string]*Node
	globals map[string]*Node
	Inlined map[*ssa.Function]int
	mem     *memState
	memPhiIdx map[*Block][]*Node
	trims   []*Node
	extracts map[*Node]map[int]*Node
}

type InlinePolicy func(ir *IR, callee *ssa.Function, depth int, stack []*ssa.Function) bool

func fnSize(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func hasDefer(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return f.Recover != nil
}

func inlineUpTo(size int) InlinePolicy {
	return func(ir *IR, callee *ssa.Function, depth int, stack []*ssa.Function) bool {
		if depth > 6 || hasDefer(callee) {
			return false
		}
		for _, s := range stack {
			if s == callee {
				return false
			}
		}
		return fnSize(callee) <= size
	}
}

type inliner struct {
	ir     *IR
	policy InlinePolicy
}

func (p *Program) buildIR(fn *ssa.Function, policy InlinePolicy) *IR {
	ir := p.buildRaw(fn, policy)
	ir.foldAll()
	return ir
}

func (p *Program) buildRaw(fn *ssa.Function, policy InlinePolicy) *IR {
	ir := &IR{P: p, Fn: fn, consts: map[string]*Node{}, globals: map[string]*Node{}, Inlined: map[*ssa.Function]int{}}
	in := &inliner{ir: ir, policy: policy}
	fr := &Frame{Fn: fn}
	entry := ir.newBlock(fr)
	ir.Entry = entry
	for _, prm := range fn.Params {
		n := ir.newNode(OParam, prm.Type(), fr)
		n.Name = prm.Name()
		n.Src = prm
		n.Blk = entry
		n.Pos = prm.Pos()
		ir.Params = append(ir.Params, n)
	}
	for _, fv := range fn.FreeVars {
		n := ir.newNode(OFreeVar, fv.Type(), fr)
		n.Name = fv.Name()
		n.Src = fv
		n.Blk = entry
		ir.Free = append(ir.Free, n)
	}
	in.emit(fn, fr, ir.Params, ir.Free, entry, nil, []*ssa.Function{fn}, 0)
	ir.finish()
	return ir
}

func (ir *IR) newNode(op Op, t types.Type, fr *Frame) *Node {
	ir.nid++
	return &Node{ID: ir.nid, Op: op, Typ: t, Frame: fr}
}

func (ir *IR) newBlock(fr *Frame) *Block {
	ir.bid++
	return &Block{ID: ir.bid, frame: fr}
}

func link(a, b *Block) {
	a.Succs = append(a.Succs, b)
	b.Preds = append(b.Preds, a)
}

func (ir *IR) constNode(c *ssa.Const) *Node {
	key := c.Type().String() + "|nil"
	if c.Value != nil {
		key = c.Type().String() + "|" + c.Value.ExactString()
	}
	if n := ir.consts[key]; n != nil {
		return n
	}
	n := ir.newNode(OConst, c.Type(), nil)
	n.Const = c.Value
	n.IsNil = c.Value == nil
	n.Blk = ir.Entry
	ir.consts[key] = n
	return n
}

func (ir *IR) intConst(v int64, t types.Type) *Node {
	return ir.constNode(ssa.NewConst(constant.MakeInt64(v), t))
}

type retSite struct {
	blk  *Block
	vals []*Node
}

// emit copies fn's body into the IR starting at block `at`. When cont is nil the returns stay returns, otherwise
// every return jumps to cont and the values are handed back.
func (in *inliner) emit(fn *ssa.Function, fr *Frame, params, free []*Node, at *Block, cont *Block, stack []*ssa.Function, depth int) []retSite {
	ir := in.ir
	vals := map[ssa.Value]*Node{}
	multi := map[ssa.Value][]*Node{} // inlined calls with several results
	for i, p := range fn.Params {
		vals[p] = params[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			vals[f] = free[i]
		}
	}
	start := map[*ssa.BasicBlock]*Block{}
	end := map[*ssa.BasicBlock]*Block{}
	// reverse postorder of reachable blocks
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	for i, b := range order {
		if i == 0 && len(b.Preds) == 0 {
			start[b] = at
		} else {
			start[b] = ir.newBlock(fr)
			if i == 0 {
				ir.addNode(at, ir.newNode(OJump, nil, fr))
				link(at, start[b])
			}
		}
	}
	get := func(v ssa.Value) *Node {
		if v == nil {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Const:
			return ir.constNode(v)
		case *ssa.Global:
			k := v.String()
			if n := ir.globals[k]; n != nil {
				return n
			}
			n := ir.newNode(OGlobal, v.Type(), nil)
			n.Name = v.Name()
			n.Src = v
			n.Blk = ir.Entry
			ir.globals[k] = n
			return n
		case *ssa.Function:
			k := "func " + v.String()
			if n := ir.globals[k]; n != nil {
				return n
			}
			n := ir.newNode(OFunc, v.Type(), nil)
			n.Callee = v
			n.Name = v.Name()
			n.Blk = ir.Entry
			ir.globals[k] = n
			return n
		case *ssa.Builtin:
			n := ir.newNode(OOther, v.Type(), nil)
			n.Name = v.Name()
			n.Blk = ir.Entry
			return n
		}
		n := vals[v]
		if n == nil {
			panic(fmt.Sprintf("internal: no node for %s in %s", v.Name(), fn))
		}
		return n
	}
	var rets []retSite
	type phiFix struct {
		n   *Node
		phi *ssa.Phi
	}
	var phis []phiFix
	for _, b := range order {
		cur := start[b]
		dead := false
		for _, ins := range b.Instrs {
			if dead {
				break
			}
			mk := func(op Op, v ssa.Value, args ...*Node) *Node {
				var t types.Type
				if v != nil {
					t = v.Type()
				}
				n := ir.newNode(op, t, fr)
				n.Args = args
				n.Pos = ins.Pos()
				n.Src = v
				if v != nil {
					vals[v] = n
				}
				ir.addNode(cur, n)
				return n
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				n := mk(OPhi, x)
				phis = append(phis, phiFix{n, x})
			case *ssa.BinOp:
				mk(OBin, x, get(x.X), get(x.Y)).Tok = x.Op
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					mk(OLoad, x, get(x.X))
				default:
					n := mk(OUn, x, get(x.X))
					n.Tok = x.Op
				}
			case *ssa.Store:
				mk(OStore, nil, get(x.Addr), get(x.Val))
			case *ssa.Alloc:
				mk(OAlloc, x).Name = x.Comment
			case *ssa.FieldAddr:
				mk(OFieldAddr, x, get(x.X)).Field = x.Field
			case *ssa.Field:
				mk(OField, x, get(x.X)).Field = x.Field
			case *ssa.IndexAddr:
				mk(OIndexAddr, x, get(x.X), get(x.Index))
			case *ssa.Index:
				mk(OIndex, x, get(x.X), get(x.Index))
			case *ssa.Lookup:
				mk(OLookup, x, get(x.X), get(x.Index)).CommaOk = x.CommaOk
			case *ssa.MapUpdate:
				mk(OMapUpdate, nil, get(x.Map), get(x.Key), get(x.Value))
			case *ssa.Slice:
				n := mk(OSlice, x, get(x.X))
				add := func(v ssa.Value, f *bool) {
					if v != nil {
						*f = true
						n.Args = append(n.Args, get(v))
					}
				}
				add(x.Low, &n.Lo)
				add(x.High, &n.Hi)
				add(x.Max, &n.Max)
			case *ssa.MakeSlice:
				mk(OMakeSlice, x, get(x.Len), get(x.Cap))
			case *ssa.MakeMap:
				mk(OMakeMap, x)
			case *ssa.MakeInterface:
				mk(OMakeIface, x, get(x.X))
			case *ssa.MakeClosure:
				var bs []*Node
				for _, bnd := range x.Bindings {
					bs = append(bs, get(bnd))
				}
				mk(OMakeClosure, x, bs...).Callee = x.Fn.(*ssa.Function)
			case *ssa.Convert:
				mk(OConvert, x, get(x.X))
			case *ssa.ChangeType:
				mk(OChangeType, x, get(x.X))
			case *ssa.ChangeInterface:
				mk(OChangeIface, x, get(x.X))
			case *ssa.TypeAssert:
				mk(OTypeAssert, x, get(x.X)).CommaOk = x.CommaOk
			case *ssa.Extract:
				if m, ok := multi[x.Tuple]; ok {
					vals[x] = m[x.Index]
					continue
				}
				mk(OExtract, x, get(x.Tuple)).Field = x.Index
			case *ssa.Call:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					var as []*Node
					for _, a := range cc.Args {
						as = append(as, get(a))
					}
					n := mk(OBuiltin, x, as...)
					n.Name = bi.Name()
					continue
				}
				if cc.IsInvoke() {
					as := []*Node{get(cc.Value)}
					for _, a := range cc.Args {
						as = append(as, get(a))
					}
					mk(OCall, x, as...).Method = cc.Method
					continue
				}
				var callee *ssa.Function
				var binds []*Node
				fv := get(cc.Value)
				switch fv.Op {
				case OFunc:
					callee = fv.Callee
				case OMakeClosure:
					callee = fv.Callee
					binds = fv.Args
				}
				var as []*Node
				for _, a := range cc.Args {
					as = append(as, get(a))
				}
				if callee != nil && in.ir.P.internal(callee) && in.policy != nil && in.policy(ir, callee, depth, stack) {
					ir.Inlined[callee]++
					nf := &Frame{Fn: callee, Parent: fr, Call: x.Pos()}
					cb := ir.newBlock(fr)
					rs := in.emit(callee, nf, as, binds, cur, cb, append(append([]*ssa.Function{}, stack...), callee), depth+1)
					nres := callee.Signature.Results().Len()
					res := make([]*Node, nres)
					for i := 0; i < nres; i++ {
						if len(rs) == 1 {
							res[i] = rs[0].vals[i]
							continue
						}
						ph := ir.newNode(OPhi, callee.Signature.Results().At(i).Type(), fr)
						ph.Pos = x.Pos()
						for _, r := range rs {
							ph.Args = append(ph.Args, r.vals[i])
						}
						ir.addNode(cb, ph)
						res[i] = ph
					}
					if len(rs) == 0 {
						dead = true // callee never returns
					}
					switch nres {
					case 0:
					case 1:
						vals[x] = res[0]
						if len(rs) == 0 {
							vals[x] = ir.newNode(OOther, x.Type(), fr)
							vals[x].Blk = cb
						}
					default:
						if len(rs) == 0 {
							for i := range res {
								res[i] = ir.newNode(OOther, callee.Signature.Results().At(i).Type(), fr)
								res[i].Blk = cb
							}
						}
						multi[x] = res
					}
					cur = cb
					if dead {
						// unreachable continuation: still translate it so that later uses resolve
						dead = false
					}
					continue
				}
				n := mk(OCall, x, as...)
				n.Callee = callee
				if callee == nil {
					n.Args = append([]*Node{fv}, n.Args...)
					n.Name = "dynamic"
				} else if len(binds) > 0 {
					n.Name = "closure"
				}
			case *ssa.Range:
				mk(ORange, x, get(x.X))
			case *ssa.Next:
				mk(ONext, x, get(x.Iter)).CommaOk = x.IsString
			case *ssa.Panic:
				mk(OPanic, nil, get(x.X))
			case *ssa.Return:
				var as []*Node
				for _, r := range x.Results {
					as = append(as, get(r))
				}
				if cont == nil {
					n := mk(OReturn, nil, as...)
					_ = n
				} else {
					mk(OJump, nil)
					link(cur, cont)
					rets = append(rets, retSite{cur, as})
				}
			case *ssa.If:
				mk(OIf, nil, get(x.Cond))
				end[b] = cur
				link(cur, start[b.Succs[0]])
				link(cur, start[b.Succs[1]])
			case *ssa.Jump:
				mk(OJump, nil)
				end[b] = cur
				link(cur, start[b.Succs[0]])
			case *ssa.Defer:
				var as []*Node
				cc := x.Common()
				if cc.IsInvoke() {
					as = append(as, get(cc.Value))
				}
				for _, a := range cc.Args {
					as = append(as, get(a))
				}
				n := mk(ODefer, nil, as...)
				n.Callee = cc.StaticCallee()
				n.Method = cc.Method
			case *ssa.RunDefers:
				mk(ORunDefers, nil)
			case *ssa.DebugRef:
			default:
				var v ssa.Value
				if vv, ok := ins.(ssa.Value); ok {
					v = vv
				}
				var as []*Node
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil {
						as = append(as, get(*op))
					}
				}
				mk(OOther, v, as...).Name = fmt.Sprintf("%T", ins)
			}
		}
		if end[b] == nil {
			end[b] = cur
		}
	}
	for _, pf := range phis {
		// arguments in the order of the IR block's predecessors
		for _, pb := range pf.n.Blk.Preds {
			var found ssa.Value
			for i, e := range pf.phi.Block().Preds {
				if end[e] == pb && seen[e] {
					// an If with both edges to the same block yields two identical preds
					found = pf.phi.Edges[i]
					cnt := 0
					for _, q := range pf.n.Blk.Preds[:len(pf.n.Args)] {
						if q == pb {
							cnt++
						}
					}
					if cnt > 0 {
						k := 0
						for j, e2 := range pf.phi.Block().Preds {
							if e2 == e {
								if k == cnt {
									found = pf.phi.Edges[j]
								}
								k++
							}
						}
					}
					break
				}
			}
			if found == nil {
				panic("internal: phi edge not found in " + fn.String())
			}
			pf.n.Args = append(pf.n.Args, get(found))
		}
	}
	return rets
}

func (ir *IR) addNode(b *Block, n *Node) {
	n.Blk = b
	b.Nodes = append(b.Nodes, n)
}

// finish computes reachable blocks, dominators and loops; it can be run again after pruning.
func (ir *IR) finish() {
	seen := map[*Block]bool{}
	var order []*Block
	var dfs func(b *Block)
	dfs = func(b *Block) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(ir.Entry)
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	ir.Blocks = order
	ir.Returns = nil
	for i, b := range order {
		b.rpo = i
		// drop unreachable predecessors and their phi arguments
		var np []*Block
		var keep []int
		for j, p := range b.Preds {
			if seen[p] {
				np = append(np, p)
				keep = append(keep, j)
			}
		}
		if len(np) != len(b.Preds) {
			for _, n := range b.Nodes {
				if n.Op == OPhi && len(n.Args) == len(b.Preds) {
					var na []*Node
					for _, k := range keep {
						na = append(na, n.Args[k])
					}
					n.Args = na
				}
			}
			b.Preds = np
		}
		for j, n := range b.Nodes {
			n.Idx = j
			if n.Op == OReturn {
				ir.Returns = append(ir.Returns, n)
			}
		}
	}
	ir.dominators()
	ir.findLoops()
}

func (ir *IR) dominators() {
	for _, b := range ir.Blocks {
		b.idom = nil
		b.dom = nil
	}
	ir.Entry.idom = ir.Entry
	for changed := true; changed; {
		changed = false
		for _, b := range ir.Blocks[1:] {
			var d *Block
			for _, p := range b.Preds {
				if p.idom == nil {
					continue
				}
				if d == nil {
					d = p
					continue
				}
				x, y := p, d
				for x != y {
					for x.rpo > y.rpo {
						x = x.idom
					}
					for y.rpo > x.rpo {
						y = y.idom
					}
				}
				d = x
			}
			if b.idom != d {
				b.idom = d
				changed = true
			}
		}
	}
	ir.Entry.idom = nil
	for _, b := range ir.Blocks[1:] {
		b.idom.dom = append(b.idom.dom, b)
	}
	n := 0
	var walk func(b *Block)
	walk = func(b *Block) {
		n++
		b.pre = n
		for _, c := range b.dom {
			walk(c)
		}
		n++
		b.post = n
	}
	walk(ir.Entry)
}

func (a *Block) dominates(b *Block) bool { return a.pre <= b.pre && b.post <= a.post }

func (ir *IR) findLoops() {
	ir.Loops = nil
	byHeader := map[*Block]*Loop{}
	for _, b := range ir.Blocks {
		b.loop = nil
	}
	for _, b := range ir.Blocks {
		for _, s := range b.Succs {
			if s.dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &Loop{Header: s, Blocks: map[*Block]bool{s: true}}
					byHeader[s] = l
					ir.Loops = append(ir.Loops, l)
				}
				l.Latches = append(l.Latches, b)
				st := []*Block{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.Blocks[x] {
						continue
					}
					l.Blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	sort.Slice(ir.Loops, func(i, j int) bool { return len(ir.Loops[i].Blocks) > len(ir.Loops[j].Blocks) })
	for _, l := range ir.Loops { // larger first, so the innermost assignment wins
		l.Parent = l.Header.loop
		for b := range l.Blocks {
			b.loop = l
		}
	}
	sort.Slice(ir.Loops, func(i, j int) bool { return ir.Loops[i].Header.rpo < ir.Loops[j].Header.rpo })
}

// isLoopHeader reports whether b is the target of a back edge.
func (b *Block) isLoopHeader() bool { return b.loop != nil && b.loop.Header == b }

// idf is the iterated dominance frontier of a set of blocks.
func (ir *IR) idf(defs map[*Block]bool) map[*Block]bool {
	df := map[*Block]map[*Block]bool{}
	for _, b := range ir.Blocks {
		if len(b.Preds) < 2 {
			continue
		}
		for _, p := range b.Preds {
			for r := p; r != nil && r != b.idom; r = r.idom {
				if df[r] == nil {
					df[r] = map[*Block]bool{}
				}
				df[r][b] = true
			}
		}
	}
	out := map[*Block]bool{}
	var work []*Block
	for b := range defs {
		work = append(work, b)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for x := range df[b] {
			if !out[x] {
				out[x] = true
				work = append(work, x)
			}
		}
	}
	return out
}

func (n *Node) canon() *Node {
	for n.repl != nil && n.repl != n {
		n = n.repl
	}
	return n
}

func (n *Node) String() string {
	if n == nil {
		return "<nil>"
	}
	n = n.canon()
	switch n.Op {
	case OConst:
		if n.IsNil {
			return "nil"
		}
		return n.Const.ExactString()
	case OParam, OFreeVar, OGlobal:
		return n.Name
	case OFunc:
		return n.Callee.Name()
	}
	return fmt.Sprintf("%s#%d", opNames[n.Op], n.ID)
}

func (n *Node) dump() string {
	var as []string
	for _, a := range n.Args {
		as = append(as, a.String())
	}
	s := fmt.Sprintf("%s#%d", opNames[n.Op], n.ID)
	if n.Tok != 0 {
		s += " " + n.Tok.String()
	}
	if n.Callee != nil {
		s += " " + fnName(n.Callee)
	}
	if n.Method != nil {
		s += " ." + n.Method.Name()
	}
	if n.Name != "" {
		s += " " + n.Name
	}
	if n.Op == OFieldAddr || n.Op == OField || n.Op == OExtract {
		s += fmt.Sprintf(" f%d", n.Field)
	}
	s += " (" + strings.Join(as, ", ") + ")"
	if n.repl != nil {
		s += " => " + n.canon().String()
	}
	if n.Typ != nil {
		s += " : " + types.TypeString(n.Typ, func(*types.Package) string { return "" })
	}
	return s
}

func (ir *IR) dump() string {
	var sb strings.Builder
	for _, b := range ir.Blocks {
		fmt.Fprintf(&sb, "b%d preds=", b.ID)
		for _, p := range b.Preds {
			fmt.Fprintf(&sb, "b%d ", p.ID)
		}
		fmt.Fprintf(&sb, " succs=")
		for _, p := range b.Succs {
			fmt.Fprintf(&sb, "b%d ", p.ID)
		}
		if b.isLoopHeader() {
			sb.WriteString(" LOOP")
		}
		fmt.Fprintf(&sb, "  [%s]\n", fnName(b.frame.Fn))
		if ir.mem != nil {
			for _, n := range ir.memPhisOf(b) {
				fmt.Fprintf(&sb, "   mem %s %v\n", n.dump(), n.MemLoc)
			}
		}
		for _, n := range b.Nodes {
			fmt.Fprintf(&sb, "   %-14s %s\n", ir.P.pos(n.Pos), n.dump())
		}
	}
	return sb.String()
}

func sortNodes(l []*Node) { sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID }) }

func sortAtoms(l []Atom) {
	sort.Slice(l, func(i, j int) bool {
		if l[i].N.ID != l[j].N.ID {
			return l[i].N.ID < l[j].N.ID
		}
		return l[i].Kind < l[j].Kind
	})
}
