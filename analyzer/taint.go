package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which values may refer to the memory of a caller's byte buffer: an interprocedural data-flow analysis over SSA,
// sensitive to boolean constants passed down (the sharing option), with field-based treatment of the heap.

type taintKey struct {
	fn   *ssa.Function
	args uint64 // parameters (then free variables) that may refer to the buffer
	fls  uint64 // parameters known to be false
	tru  uint64
}

type taintSum struct {
	ret  uint64 // results that may refer to the buffer
	done bool
}

type taintEvent struct {
	Kind string // "store" (into a tree), "write" (through the buffer)
	Pos  token.Pos
	Fn   *ssa.Function
	What string
}

type taintAn struct {
	p       *Program
	sums    map[taintKey]*taintSum
	class   map[string]bool // heap classes whose content may refer to the buffer
	cell    map[ssa.Value]bool
	events  map[string]taintEvent
	changed bool
	sites   map[string]int
	fns     map[*ssa.Function]bool
	isSink  func(class string) bool
	// loadSource: a load of this class refers to caller memory by itself
	loadSource func(class string) bool
}

func newTaint(p *Program) *taintAn {
	return &taintAn{p: p, sums: map[taintKey]*taintSum{}, class: map[string]bool{}, cell: map[ssa.Value]bool{}, events: map[string]taintEvent{}, sites: map[string]int{}, fns: map[*ssa.Function]bool{}}
}

// bytesLike: the value can carry a reference to byte memory
func bytesLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Slice, *types.Pointer, *types.Interface, *types.Struct, *types.Array, *types.Signature, *types.Map:
		return true
	}
	return false
}

func (t *taintAn) run(roots func() []taintKey) {
	for i := 0; i < 30; i++ {
		t.changed = false
		for _, s := range t.sums {
			s.done = false
		}
		for _, k := range roots() {
			t.analyse(k, 0)
		}
		if !t.changed {
			return
		}
	}
}

func (t *taintAn) analyse(k taintKey, depth int) uint64 {
	s := t.sums[k]
	if s == nil {
		s = &taintSum{}
		t.sums[k] = s
		t.changed = true
	}
	if s.done || depth > 60 {
		return s.ret
	}
	s.done = true
	t.fns[k.fn] = true
	f := k.fn
	if f.Blocks == nil {
		return 0
	}
	// constant branches
	reach := constReach(f, k.fls, k.tru)
	tv := map[ssa.Value]bool{}
	for i, p := range f.Params {
		if k.args>>uint(i)&1 == 1 {
			tv[p] = true
		}
	}
	for i, p := range f.FreeVars {
		if k.args>>uint(len(f.Params)+i)&1 == 1 {
			tv[p] = true
		}
	}
	for again := true; again; {
		again = false
		mark := func(v ssa.Value) {
			if !tv[v] {
				tv[v] = true
				again = true
			}
		}
		for _, b := range f.Blocks {
			if !reach.block[b] {
				continue
			}
			for _, in := range b.Instrs {
				t.instr(k, in, tv, mark, reach, depth)
			}
		}
	}
	for _, b := range f.Blocks {
		if !reach.block[b] {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, v := range r.Results {
				if tv[v] && s.ret>>uint(i)&1 == 0 {
					s.ret |= 1 << uint(i)
					t.changed = true
				}
			}
		}
	}
	return s.ret
}

func (t *taintAn) event(kind string, pos token.Pos, fn *ssa.Function, format string, a ...interface{}) {
	e := taintEvent{kind, pos, fn, fmt.Sprintf(format, a...)}
	key := fmt.Sprintf("%s|%d|%s|%s", kind, pos, fnName(fn), e.What)
	if _, ok := t.events[key]; !ok {
		t.events[key] = e
	}
}

func (t *taintAn) sorted() []taintEvent {
	var out []taintEvent
	for _, e := range t.events {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos < out[j].Pos })
	return out
}

// cellOf: the local variable an address belongs to
func cellOf(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			a = x.X
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			return x
		default:
			return nil
		}
	}
}

func (t *taintAn) bindingCell(v ssa.Value) []ssa.Value {
	fv, ok := v.(*ssa.FreeVar)
	if !ok {
		return []ssa.Value{v}
	}
	var out []ssa.Value
	for _, g := range t.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fv.Parent()) {
					for i, x := range fv.Parent().FreeVars {
						if x == fv {
							out = append(out, t.bindingCell(mc.Bindings[i])...)
						}
					}
				}
			}
		}
	}
	return out
}

func (t *taintAn) setCell(c ssa.Value) {
	for _, x := range t.bindingCell(c) {
		if !t.cell[x] {
			t.cell[x] = true
			t.changed = true
		}
	}
}

func (t *taintAn) getCell(c ssa.Value) bool {
	for _, x := range t.bindingCell(c) {
		if t.cell[x] {
			return true
		}
	}
	return false
}

func (t *taintAn) instr(k taintKey, in ssa.Instruction, tv map[ssa.Value]bool, mark func(ssa.Value), reach *constInfo, depth int) {
	f := k.fn
	switch x := in.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if reach.edge(x.Block().Preds[i], x.Block()) && tv[e] {
				mark(x)
			}
		}
	case *ssa.Slice:
		if tv[x.X] {
			mark(x)
		} else if c := cellOf(x.X); c != nil && t.getCell(c) && bytesLike(deref(x.X.Type())) {
			if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && !isByteElem(a.Elem()) {
				mark(x)
			}
		}
	case *ssa.ChangeType:
		if tv[x.X] {
			mark(x)
		}
	case *ssa.ChangeInterface:
		if tv[x.X] {
			mark(x)
		}
	case *ssa.MakeInterface:
		if tv[x.X] {
			mark(x)
		}
	case *ssa.TypeAssert:
		if tv[x.X] {
			mark(x)
		}
	case *ssa.Convert:
		// string(b) and []byte(s) copy; conversions through unsafe pointers do not
		if tv[x.X] && (isUnsafePtr(x.Type()) || isUnsafePtr(x.X.Type())) {
			mark(x)
		}
		if isUnsafePtr(x.Type()) {
			if c := cellOf(x.X); c != nil && t.getCell(c) {
				mark(x)
			}
		}
	case *ssa.Extract:
		if tv[x.Tuple] {
			// set per result below
		}
	case *ssa.Field:
		if tv[x.X] && bytesLike(x.Type()) {
			mark(x)
		}
	case *ssa.Index:
		if tv[x.X] && bytesLike(x.Type()) {
			mark(x)
		}
	case *ssa.FieldAddr:
		if tv[x.X] {
			mark(x)
		}
	case *ssa.IndexAddr:
		if tv[x.X] {
			mark(x)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if !bytesLike(x.Type()) {
			return
		}
		if c := cellOf(x.X); c != nil {
			if t.getCell(c) {
				mark(x)
			}
			return
		}
		if tv[x.X] {
			if _, isIA := x.X.(*ssa.IndexAddr); isIA || isUnsafeLoad(x.X) {
				mark(x)
			}
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			c, _, _ := classOfAddr(fa)
			if t.class[c] || t.loadSource != nil && t.loadSource(c) {
				mark(x)
			}
		} else if g, ok := x.X.(*ssa.Global); ok && t.class["global "+g.Name()] {
			mark(x)
		} else if ia, ok := x.X.(*ssa.IndexAddr); ok {
			_ = ia
			if st := structOf(deref(x.X.Type())); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if t.class[tname(deref(x.X.Type()))+"."+st.Field(i).Name()] {
						mark(x)
					}
				}
			}
		}
	case *ssa.Lookup:
		if tv[x.X] && bytesLike(x.Type()) {
			mark(x)
		}
	case *ssa.Store:
		// writing through the buffer
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isByteElem(deref(x.Addr.Type())) {
			t.sites[fmt.Sprintf("w%d", x.Pos())]++
			if tv[ia.X] {
				t.event("write", x.Pos(), f, "assigns to an element of it")
			}
		}
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && bytesLike(x.Val.Type()) {
			c, _, _ := classOfAddr(fa)
			if t.isSink != nil && t.isSink(c) {
				t.sites[fmt.Sprintf("s%d", x.Pos())]++
				if tv[x.Val] {
					t.event("store", x.Pos(), f, "%s is set to memory of the input", c)
				}
			}
		}
		if !tv[x.Val] {
			return
		}
		if c := cellOf(x.Addr); c != nil {
			t.setCell(c)
			if _, ok := x.Addr.(*ssa.FieldAddr); !ok {
				return
			}
		}
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			c, _, _ := classOfAddr(fa)
			if (t.isSink == nil || !t.isSink(c)) && !t.class[c] {
				t.class[c] = true
				t.changed = true
			}
		} else if g, ok := x.Addr.(*ssa.Global); ok && !t.class["global "+g.Name()] {
			t.class["global "+g.Name()] = true
			t.changed = true
		}
	case *ssa.Call:
		t.call(k, x, &x.Call, x, tv, mark, reach, depth)
	case *ssa.Defer:
		t.call(k, nil, &x.Call, x, tv, mark, reach, depth)
	case *ssa.Go:
		t.call(k, nil, &x.Call, x, tv, mark, reach, depth)
	}
}

func isUnsafeLoad(v ssa.Value) bool {
	c, ok := v.(*ssa.Convert)
	return ok && isUnsafePtr(c.X.Type())
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// copyingCalls never return or keep a reference to their arguments' memory.
func (t *taintAn) externResult(g *ssa.Function, args []ssa.Value, tv map[ssa.Value]bool, res types.Type) bool {
	any := false
	for _, a := range args {
		if tv[a] {
			any = true
		}
	}
	if !any || !bytesLike(res) || isErrorType(res) {
		return false
	}
	pk := ""
	if g.Object() != nil && g.Object().Pkg() != nil {
		pk = g.Object().Pkg().Path()
	}
	n := g.Name()
	if strings.HasSuffix(pk, "DxCommonLib") {
		switch n {
		case "ParserEscapeStr", "UnEscapeStr", "Bin2Hex", "GBKString":
			return false
		case "EscapeJsonbyte":
			return tv[args[len(args)-1]]
		}
		return true
	}
	switch pk {
	case "fmt", "strconv", "errors", "time", "encoding/base64", "encoding/hex", "math", "reflect":
		return pk == "reflect"
	case "bytes":
		switch n {
		case "Join", "Repeat", "ToUpper", "ToLower", "Title", "Clone", "Map", "Replace", "ReplaceAll", "ToTitle":
			return false
		}
	case "strings":
		switch n {
		case "Join", "Repeat", "Clone":
			return false
		}
	}
	return true
}

// writers: library functions that write into a byte-slice argument
func externWrites(g *ssa.Function) (arg int, ok bool) {
	if g == nil || g.Object() == nil || g.Object().Pkg() == nil {
		return 0, false
	}
	n := g.Name()
	switch g.Object().Pkg().Path() {
	case "encoding/binary":
		if strings.HasPrefix(n, "PutU") || n == "PutVarint" {
			if g.Signature.Recv() != nil {
				return 1, true
			}
			return 0, true
		}
	case "encoding/hex", "encoding/base64":
		if n == "Encode" || n == "Decode" {
			if g.Signature.Recv() != nil {
				return 1, true
			}
			return 0, true
		}
	case "unicode/utf8":
		if n == "EncodeRune" {
			return 0, true
		}
	case "io", "os", "bufio":
		if n == "Read" || n == "ReadFull" || n == "ReadAt" || n == "ReadAtLeast" {
			return 1, true
		}
	case "sort":
		return 0, true
	}
	return 0, false
}

func (t *taintAn) call(k taintKey, res *ssa.Call, cc *ssa.CallCommon, at ssa.Instruction, tv map[ssa.Value]bool, mark func(ssa.Value), reach *constInfo, depth int) {
	f := k.fn
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && isByteElem(s.Elem()) {
				t.sites[fmt.Sprintf("a%d", at.Pos())]++
				if tv[cc.Args[0]] {
					t.event("write", at.Pos(), f, "appends to it, which writes behind it or over it")
					if res != nil {
						mark(res)
					}
				}
				return
			}
			if tv[cc.Args[0]] || len(cc.Args) > 1 && tv[cc.Args[1]] {
				if res != nil {
					mark(res)
				}
			}
		case "copy":
			t.sites[fmt.Sprintf("a%d", at.Pos())]++
			if tv[cc.Args[0]] {
				t.event("write", at.Pos(), f, "copies into it")
			}
		}
		return
	}
	set := func(i int) {
		if res == nil {
			return
		}
		if cc.Signature().Results().Len() == 1 {
			mark(res)
			return
		}
		for _, r := range *res.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i {
				mark(e)
			}
		}
	}
	var targets []*ssa.Function
	extra := 0
	var binds []ssa.Value
	if g := cc.StaticCallee(); g != nil {
		targets = []*ssa.Function{g}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			binds = mc.Bindings
			extra = len(binds)
		}
	} else if !cc.IsInvoke() {
		for _, g := range t.p.Funcs {
			if (t.p.addrTaken[g] || g.Parent() != nil) && types.Identical(g.Signature, cc.Signature()) {
				targets = append(targets, g)
			}
		}
	}
	_ = extra
	for _, g := range targets {
		if !t.p.internal(g) {
			if i, ok := externWrites(g); ok && i < len(cc.Args) {
				t.sites[fmt.Sprintf("a%d", at.Pos())]++
				if tv[cc.Args[i]] {
					t.event("write", at.Pos(), f, "%s writes into it", g.Name())
				}
			}
			rs := g.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				if t.externResult(g, cc.Args, tv, rs.At(i).Type()) {
					set(i)
				}
			}
			continue
		}
		nk := taintKey{fn: g}
		for i, a := range cc.Args {
			if i >= 60 {
				break
			}
			if tv[a] {
				nk.args |= 1 << uint(i)
			}
			if v, ok := reach.boolVal(a); ok {
				if v {
					nk.tru |= 1 << uint(i)
				} else {
					nk.fls |= 1 << uint(i)
				}
			}
		}
		for i, a := range binds {
			if tv[a] {
				nk.args |= 1 << uint(len(g.Params)+i)
			}
		}
		r := t.analyse(nk, depth+1)
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if r>>uint(i)&1 == 1 {
				set(i)
			}
		}
	}
}

// ---- boolean constants --------------------------------------------------------------------------------------

type constInfo struct {
	f     *ssa.Function
	val   map[ssa.Value]int // 1 true, -1 false
	block map[*ssa.BasicBlock]bool
	dead  map[[2]*ssa.BasicBlock]bool
}

func (c *constInfo) boolVal(v ssa.Value) (bool, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return constant.BoolVal(k.Value), true
	}
	switch c.val[v] {
	case 1:
		return true, true
	case -1:
		return false, true
	}
	return false, false
}

func (c *constInfo) edge(a, b *ssa.BasicBlock) bool {
	return c.block[a] && !c.dead[[2]*ssa.BasicBlock{a, b}]
}

// constReach: the blocks that can be executed when the given parameters have the given boolean values
func constReach(f *ssa.Function, fls, tru uint64) *constInfo {
	c := &constInfo{f: f, val: map[ssa.Value]int{}}
	for i, p := range f.Params {
		if i < 60 {
			if fls>>uint(i)&1 == 1 {
				c.val[p] = -1
			}
			if tru>>uint(i)&1 == 1 {
				c.val[p] = 1
			}
		}
	}
	for round := 0; round < 10; round++ {
		c.block = map[*ssa.BasicBlock]bool{}
		c.dead = map[[2]*ssa.BasicBlock]bool{}
		var visit func(b *ssa.BasicBlock)
		visit = func(b *ssa.BasicBlock) {
			if c.block[b] {
				return
			}
			c.block[b] = true
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v, k := c.boolVal(i.Cond); k && b.Succs[0] != b.Succs[1] {
					if v {
						c.dead[[2]*ssa.BasicBlock{b, b.Succs[1]}] = true
						visit(b.Succs[0])
					} else {
						c.dead[[2]*ssa.BasicBlock{b, b.Succs[0]}] = true
						visit(b.Succs[1])
					}
					return
				}
			}
			for _, s := range b.Succs {
				visit(s)
			}
		}
		visit(f.Blocks[0])
		if f.Recover != nil {
			visit(f.Recover)
		}
		n := len(c.val)
		for _, b := range f.Blocks {
			if !c.block[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.NOT {
						if v, ok := c.boolVal(x.X); ok {
							c.set(x, !v)
						}
					}
					if x.Op == token.MUL {
						// a variable captured by a closure, assigned once
						if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
							var st *ssa.Store
							cnt := 0
							for _, r := range *al.Referrers() {
								switch r := r.(type) {
								case *ssa.Store:
									if r.Addr == ssa.Value(al) {
										st = r
										cnt++
									} else {
										cnt = 9
									}
								case *ssa.UnOp:
								default:
									cnt = 9
								}
							}
							if cnt == 1 {
								if v, ok := c.boolVal(st.Val); ok {
									c.set(x, v)
								}
							}
						}
					}
				case *ssa.BinOp:
					if x.Op == token.EQL || x.Op == token.NEQ {
						a, ok1 := c.boolVal(x.X)
						b, ok2 := c.boolVal(x.Y)
						if ok1 && ok2 {
							c.set(x, (a == b) == (x.Op == token.EQL))
						}
					}
				case *ssa.Phi:
					if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
						continue
					}
					same, first, ok := true, false, false
					for i, e := range x.Edges {
						if !c.edge(b.Preds[i], b) || e == ssa.Value(x) {
							continue
						}
						v, k := c.boolVal(e)
						if !k {
							same = false
							break
						}
						if ok && v != first {
							same = false
						}
						first, ok = v, true
					}
					if same && ok {
						c.set(x, first)
					}
				}
			}
		}
		if len(c.val) == n {
			break
		}
	}
	return c
}

func (c *constInfo) set(v ssa.Value, b bool) {
	if b {
		c.val[v] = 1
	} else {
		c.val[v] = -1
	}
}
