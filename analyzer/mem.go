package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- location classes -------------------------------------------------------------------------------------

func qual(*types.Package) string { return "" }

func tname(t types.Type) string { return types.TypeString(t, qual) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}

// subClasses: every class that a write of a whole value of type t at class c touches.
func subClasses(c string, t types.Type, out map[string]bool) {
	out[c] = true
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			subClasses(tname(t)+"."+s.Field(i).Name(), s.Field(i).Type(), out)
		}
	}
}

type modSet struct {
	classes map[string]bool
	all     bool
}

// classOfAddr on go/ssa values (used for mod sets); fresh tells that the memory was allocated in this function.
func classOfAddr(a ssa.Value) (class string, t types.Type, root ssa.Value) {
	t = deref(a.Type())
	switch x := a.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type())
		_, _, root = classOfAddr(x.X)
		return tname(st) + "." + structOf(st).Field(x.Field).Name(), t, root
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return "[]" + tname(t), t, sliceOrigin(x.X)
		}
		c, at, r := classOfAddr(x.X)
		return c, at, r
	case *ssa.Alloc:
		return "*" + tname(t), t, x
	case *ssa.Global:
		return "global " + x.Name(), t, x
	case *ssa.Convert:
		if isUnsafePtr(x.X.Type()) {
			if y, ok := x.X.(*ssa.Convert); ok {
				c, at, r := classOfAddr(y.X)
				return c, at, r
			}
		}
	}
	return "*" + tname(t), t, a
}

func sliceOrigin(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Slice, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// external callees that do not write through the byte slices they are given
func externPure(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	switch pkg {
	case "bytes", "strings", "errors", "fmt", "math", "time", "reflect", "unicode", "unicode/utf8", "sync", "os":
		return !strings.HasPrefix(f.Name(), "Read")
	case "strconv":
		return true
	case "github.com/suiyunonghen/DxCommonLib":
		return true
	case "encoding/binary":
		return !strings.HasPrefix(f.Name(), "Put")
	}
	return false
}

func (p *Program) fieldAddrTaken() map[string]bool {
	out := map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var a ssa.Value
				switch x := in.(type) {
				case *ssa.FieldAddr:
					a = x
				case *ssa.IndexAddr:
					a = x
				default:
					continue
				}
				for _, r := range *a.Referrers() {
					switch y := r.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if y.Addr == a {
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						continue
					}
					c, _, _ := classOfAddr(a)
					out[c] = true
				}
			}
		}
	}
	return out
}

func (p *Program) computeMods() {
	p.mods = map[*ssa.Function]*modSet{}
	taken := p.fieldAddrTaken()
	byType := map[string][]string{} // "*T" -> classes of fields of type T whose address escapes
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.FieldAddr); ok {
					c, t, _ := classOfAddr(a)
					if taken[c] {
						byType["*"+tname(t)] = append(byType["*"+tname(t)], c)
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		m := &modSet{classes: map[string]bool{}}
		p.mods[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					c, t, root := classOfAddr(x.Addr)
					if al, ok := root.(*ssa.Alloc); ok && al.Parent() == f && !capturedAlloc(al) {
						continue
					}
					if _, ok := root.(*ssa.MakeSlice); ok {
						continue
					}
					subClasses(c, t, m.classes)
					for _, c2 := range byType[c] {
						m.classes[c2] = true
					}
				case *ssa.MapUpdate:
					m.classes["map"] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			m := p.mods[f]
			add := func(c string) {
				if !m.classes[c] {
					m.classes[c] = true
					changed = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					p.callMods(ci, add)
				}
			}
		}
	}
}

func capturedAlloc(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

func (p *Program) callMods(ci ssa.CallInstruction, add func(string)) {
	cc := ci.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append", "copy":
			if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				if bi.Name() == "append" && freshSlice(cc.Args[0]) {
					return
				}
				cs := map[string]bool{}
				subClasses("[]"+tname(s.Elem()), s.Elem(), cs)
				for c := range cs {
					add(c)
				}
			}
		}
		return
	}
	g := cc.StaticCallee()
	if g != nil && p.internal(g) {
		for c := range p.mods[g].classes {
			add(c)
		}
		return
	}
	if g == nil {
		// function value or interface method: every address-taken internal function of that signature
		for _, f := range p.Funcs {
			if f.Parent() == nil && !p.addrTaken[f] {
				continue
			}
			if !cc.IsInvoke() && types.Identical(f.Signature, cc.Signature()) {
				for c := range p.mods[f].classes {
					add(c)
				}
			}
		}
		if cc.IsInvoke() {
			for _, f := range p.Funcs {
				if f.Name() == cc.Method.Name() && f.Signature.Recv() != nil {
					for c := range p.mods[f].classes {
						add(c)
					}
				}
			}
		}
	} else {
		for _, a := range cc.Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				if h := mc.Fn.(*ssa.Function); p.internal(h) {
					for c := range p.mods[h].classes {
						add(c)
					}
				}
			}
		}
	}
	if !externPure(g) {
		for _, a := range cc.Args {
			if isByteSlice(a.Type()) {
				add("[]byte")
				add("[]uint8")
			}
		}
	}
}

// freshSlice: append to nil or to a literal cannot overwrite anything visible
func freshSlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		_, ok := x.X.(*ssa.Alloc)
		return ok
	case *ssa.Convert:
		return isString(x.X.Type())
	}
	return false
}

// ---- memory promotion over the IR ---------------------------------------------------------------------------

type Loc struct {
	Root  *Node
	Path  string
	Class string
	Typ   types.Type
	Exact bool // path has no unknown component besides index ids
}

func (l Loc) key() string { return fmt.Sprintf("%d%s", l.Root.canon().ID, l.Path) }

func (ir *IR) loc(a *Node) Loc {
	a = a.canon()
	t := deref(a.Typ)
	switch a.Op {
	case OFieldAddr:
		st := deref(a.Args[0].Typ)
		in := ir.loc(a.Args[0])
		return Loc{in.Root, in.Path + fmt.Sprintf(".%d", a.Field), tname(st) + "." + structOf(st).Field(a.Field).Name(), t, true}
	case OIndexAddr:
		x := a.Args[0].canon()
		ix := a.Args[1].canon()
		is := fmt.Sprintf("[n%d]", ix.ID)
		if ix.Op == OConst && ix.Const != nil {
			is = "[" + ix.Const.ExactString() + "]"
		}
		if _, ok := x.Typ.Underlying().(*types.Slice); ok {
			return Loc{x, is, "[]" + tname(t), t, true}
		}
		in := ir.loc(x)
		return Loc{in.Root, in.Path + is, in.Class, t, true}
	case OAlloc:
		return Loc{a, "", "*" + tname(t), t, true}
	case OGlobal:
		return Loc{a, "", "global " + a.Name, t, true}
	case OConvert:
		if b := a.Args[0].canon(); isUnsafePtr(b.Typ) && b.Op == OConvert {
			in := ir.loc(b.Args[0])
			// &x.arr[0] reinterpreted: the whole array
			return Loc{in.Root, in.Path + "#" + tname(t), in.Class, t, true}
		}
	}
	return Loc{a, "", "*" + tname(t), t, true}
}

type version struct {
	def *Node  // killing node, or nil
	phi *Block // or memory phi
}

type memState struct {
	defs   map[string]map[*Block][]*Node
	phis   map[string]map[*Block]bool
	kills  map[*Node]map[string]bool
	vals   map[string]*Node
	noesc  map[*Node]bool
	synth  []*Node
}

func (ir *IR) promote() {
	if ir.P.mods == nil {
		ir.P.computeMods()
	}
	ir.P.alias()
	ir.findNonEscaping()
	for pass := 0; pass < 8; pass++ {
		m := &memState{defs: map[string]map[*Block][]*Node{}, phis: map[string]map[*Block]bool{}, kills: map[*Node]map[string]bool{}, vals: map[string]*Node{}}
		if ir.mem != nil {
			m.noesc = ir.mem.noesc
		}
		ir.mem = m
		ir.computeKills()
		if !ir.canonPass() {
			break
		}
	}
}

func (ir *IR) findNonEscaping() {
	uses := map[*Node][]*Node{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			for _, a := range n.Args {
				uses[a] = append(uses[a], n)
			}
		}
	}
	var esc func(n *Node, depth int) bool
	esc = func(n *Node, depth int) bool {
		if depth > 8 {
			return true
		}
		for _, u := range uses[n] {
			switch u.Op {
			case OLoad:
			case OStore:
				if u.Args[1] == n {
					return true
				}
			case OFieldAddr, OIndexAddr:
				if u.Args[0] == n && esc(u, depth+1) {
					return true
				}
			case OMakeClosure:
				// escapes only if the closure itself is still used
				if len(uses[u]) > 0 {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	ne := map[*Node]bool{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OAlloc && !esc(n, 0) {
				ne[n] = true
			}
		}
	}
	ir.mem = &memState{noesc: ne}
}

func (ir *IR) computeKills() {
	m := ir.mem
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			ks := map[string]bool{}
			switch n.Op {
			case OStore:
				l := ir.loc(n.Args[0])
				subClasses(l.Class, l.Typ, ks)
				if n.Args[0].canon().Op == OAlloc && structOf(l.Typ) == nil {
					ks = map[string]bool{l.Class: true}
				}
			case OBuiltin:
				if n.Name == "append" || n.Name == "copy" {
					if s, ok := n.Args[0].Typ.Underlying().(*types.Slice); ok {
						if n.Name == "append" && irFreshSlice(n.Args[0]) {
							break
						}
						subClasses("[]"+tname(s.Elem()), s.Elem(), ks)
					}
				}
			case OCall, ODefer:
				ir.callKills(n, ks)
			case ORunDefers:
				for _, b2 := range ir.Blocks {
					for _, d := range b2.Nodes {
						if d.Op == ODefer {
							ir.callKills(d, ks)
						}
					}
				}
			case OMapUpdate:
				ks["map"] = true
			}
			if len(ks) == 0 {
				continue
			}
			m.kills[n] = ks
			for c := range ks {
				if m.defs[c] == nil {
					m.defs[c] = map[*Block][]*Node{}
				}
				m.defs[c][b] = append(m.defs[c][b], n)
			}
		}
	}
	for c, d := range m.defs {
		s := map[*Block]bool{}
		for b := range d {
			s[b] = true
		}
		m.phis[c] = ir.idf(s)
	}
}

func irFreshSlice(v *Node) bool {
	v = v.canon()
	switch v.Op {
	case OConst:
		return true
	case OMakeSlice:
		return true
	case OSlice:
		return v.Args[0].canon().Op == OAlloc
	case OConvert:
		return isString(v.Args[0].Typ)
	}
	return false
}

func (ir *IR) callKills(n *Node, ks map[string]bool) {
	add := func(c string) { ks[c] = true }
	if n.Callee != nil && ir.P.internal(n.Callee) {
		for c := range ir.P.mods[n.Callee].classes {
			ks[c] = true
		}
		return
	}
	if c, ok := n.Src.(*ssa.Call); ok {
		ir.P.callMods(c, add)
	}
	// closures handed over
	for _, a := range n.Args {
		if a.Op == OMakeClosure && a.Callee != nil && ir.P.internal(a.Callee) {
			for c := range ir.P.mods[a.Callee].classes {
				ks[c] = true
			}
		}
	}
}

// verAt: version of class c just before node index idx in block b.
func (ir *IR) verAt(c string, b *Block, idx int) version {
	m := ir.mem
	d := m.defs[c]
	if d == nil {
		return version{}
	}
	first := true
	for x := b; x != nil; x = x.idom {
		l := d[x]
		if first {
			for i := len(l) - 1; i >= 0; i-- {
				if l[i].Idx < idx {
					return version{def: l[i]}
				}
			}
			first = false
		} else if len(l) > 0 {
			return version{def: l[len(l)-1]}
		}
		if m.phis[c][x] {
			return version{phi: x}
		}
	}
	return version{}
}

func (v version) str() string {
	if v.def != nil {
		return fmt.Sprintf("d%d", v.def.ID)
	}
	if v.phi != nil {
		return fmt.Sprintf("p%d", v.phi.ID)
	}
	return "e"
}

func origin(n *Node) *Node {
	for {
		n = n.canon()
		switch n.Op {
		case OSlice, OChangeType, OFieldAddr:
			n = n.Args[0]
		case OIndexAddr:
			n = n.Args[0]
		default:
			return n
		}
	}
}

func isFresh(n *Node) bool {
	n = n.canon()
	switch n.Op {
	case OAlloc, OMakeSlice:
		return true
	case OConvert:
		return isString(n.Args[0].Typ) && !isString(n.Typ)
	}
	return false
}

func domNode(a, b *Node) bool { // a's definition precedes b's on every path
	if a.Blk == nil || b.Blk == nil {
		return false
	}
	if a.Blk == b.Blk {
		return a.Idx < b.Idx
	}
	return a.Blk.dominates(b.Blk)
}

func noAlias(a, b *Node) bool {
	a, b = origin(a), origin(b)
	if a == b {
		return false
	}
	fa, fb := isFresh(a), isFresh(b)
	if fa && fb {
		return true
	}
	if fb {
		a, b, fa = b, a, true
	}
	if !fa {
		return a.Op == OGlobal && b.Op == OGlobal && a.Name != b.Name
	}
	switch b.Op {
	case OParam, OFreeVar, OGlobal, OConst, OInit:
		return true
	}
	return domNode(b, a)
}

func (ir *IR) zero(t types.Type) *Node {
	var c *ssa.Const
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			c = ssa.NewConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			c = ssa.NewConst(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			c = ssa.NewConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			c = ssa.NewConst(constant.MakeFloat64(0), t)
		}
	}
	if c == nil {
		c = ssa.NewConst(nil, t)
	}
	return ir.constNode(c)
}

func (ir *IR) synthNode(op Op, key string, t types.Type, blk *Block, idx int) *Node {
	n := ir.newNode(op, t, nil)
	n.Key = key
	n.Blk = blk
	n.Idx = idx
	if n.Blk == nil {
		n.Blk = ir.Entry
	}
	return n
}

// value is the content of location l at the given version.
func (ir *IR) value(l Loc, v version) *Node {
	m := ir.mem
	root := l.Root.canon()
	k := l.key() + "@" + v.str() + ":" + tname(l.Typ)
	if n := m.vals[k]; n != nil {
		return n.canon()
	}
	zeroBefore := root.Op == OAlloc || root.Op == OMakeSlice
	done := func(n *Node) *Node { m.vals[k] = n; return n }
	switch {
	case v.def == nil && v.phi == nil:
		if zeroBefore {
			return done(ir.zero(l.Typ))
		}
		n := ir.synthNode(OInit, k, l.Typ, nil, -1)
		n.Args = nil
		ll := l
		n.MemLoc = &ll
		n.Name = l.Class + l.Path
		n.Src = root.Src
		return done(n)
	case v.def != nil:
		d := v.def
		if zeroBefore && domNode(d, root) {
			return done(ir.zero(l.Typ))
		}
		prev := ir.verAt(l.Class, d.Blk, d.Idx)
		if d.Op == OStore {
			sl := ir.loc(d.Args[0])
			if sl.Root.canon() == root {
				if sl.Path == l.Path {
					if types.Identical(sl.Typ, l.Typ) {
						return done(ir.structVal(d.Args[1]))
					}
				} else if strings.HasPrefix(l.Path, sl.Path+".") && structOf(sl.Typ) != nil {
					// whole-struct store: project the field
					return done(ir.project(d.Args[1].canon(), l.Path[len(sl.Path):], sl.Typ, l.Typ, d))
				} else if sl.Class == l.Class && differConst(sl.Path, l.Path) {
					return done(ir.value(l, prev))
				} else if !strings.HasPrefix(sl.Path, l.Path) && !strings.HasPrefix(l.Path, sl.Path) && !strings.Contains(sl.Path, "[n") && !strings.Contains(l.Path, "[n") && !strings.Contains(sl.Path+l.Path, "#") {
					return done(ir.value(l, prev))
				}
			} else if ir.separate(sl.Root, root) {
				return done(ir.value(l, prev))
			}
		} else if m.noesc[root] {
			return done(ir.value(l, prev))
		} else if d.Op == OBuiltin && ir.separate(d.Args[0], root) {
			return done(ir.value(l, prev))
		} else if d.Op == OCall && !ir.callAffects(d, l) {
			return done(ir.value(l, prev))
		}
		n := ir.synthNode(OHavoc, k, l.Typ, d.Blk, d.Idx)
		ll := l
		n.MemLoc = &ll
		n.Args = []*Node{}
		n.Name = l.Class
		n.Pos = d.Pos
		return done(n)
	default:
		B := v.phi
		if zeroBefore && (root.Blk != B && B.dominates(root.Blk)) {
			return done(ir.zero(l.Typ))
		}
		n := ir.synthNode(OMemPhi, k, l.Typ, B, -1)
		n.Name = l.Class
		ll := l
		n.MemLoc = &ll
		m.vals[k] = n
		// the address must mean the same thing on every edge
		if !ir.addrStable(l, B) {
			return n
		}
		for _, p := range B.Preds {
			n.Args = append(n.Args, ir.value(l, ir.verAt(l.Class, p, 1<<30)))
		}
		// simplify
		var one *Node
		same := true
		for _, a := range n.Args {
			a = a.canon()
			if a == n {
				continue
			}
			if one == nil {
				one = a
			} else if one != a {
				same = false
			}
		}
		if same && one != nil {
			n.repl = one
			return one
		}
		return n
	}
}

func differConst(a, b string) bool {
	// same shape, differing in a constant index component
	as, bs := splitPath(a), splitPath(b)
	if len(as) != len(bs) {
		return false
	}
	for i := range as {
		if as[i] == bs[i] {
			continue
		}
		if strings.HasPrefix(as[i], "[") && strings.HasPrefix(bs[i], "[") && !strings.HasPrefix(as[i], "[n") && !strings.HasPrefix(bs[i], "[n") {
			return true
		}
		return false
	}
	return false
}

func splitPath(p string) []string {
	var out []string
	cur := ""
	for _, r := range p {
		if (r == '.' || r == '[' || r == '#') && cur != "" {
			out = append(out, cur)
			cur = ""
		}
		cur += string(r)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func (ir *IR) structVal(n *Node) *Node { return n.canon() }

func (ir *IR) project(val *Node, path string, st, ft types.Type, at *Node) *Node {
	if val.Op == OConst {
		return ir.zero(ft)
	}
	if val.Op == OLoad {
		l := ir.loc(val.Args[0])
		// find the class of the innermost field
		cls, t := fieldClass(st, path)
		if t != nil {
			l2 := Loc{l.Root, l.Path + path, cls, ft, true}
			return ir.value(l2, ir.verAt(cls, val.Blk, val.Idx))
		}
	}
	k := fmt.Sprintf("proj%d%s", val.ID, path)
	if n := ir.mem.vals[k]; n != nil {
		return n
	}
	n := ir.synthNode(OHavoc, k, ft, at.Blk, at.Idx)
	ir.mem.vals[k] = n
	return n
}

func fieldClass(st types.Type, path string) (string, types.Type) {
	t := st
	cls := ""
	for _, c := range splitPath(path) {
		s := structOf(t)
		if s == nil || !strings.HasPrefix(c, ".") {
			return "", nil
		}
		var i int
		fmt.Sscanf(c, ".%d", &i)
		cls = tname(t) + "." + s.Field(i).Name()
		t = s.Field(i).Type()
	}
	return cls, t
}

// addrStable: root and index nodes of l are defined before B is entered (so they denote the same address on all
// incoming edges, the back edges included).
func (ir *IR) addrStable(l Loc, B *Block) bool {
	ok := func(n *Node) bool {
		n = n.canon()
		if n.Blk == nil || n.Op == OConst || n.Op == OParam || n.Op == OGlobal || n.Op == OFreeVar || n.Op == OInit {
			return true
		}
		return n.Blk != B && n.Blk.dominates(B)
	}
	if !ok(l.Root) {
		return false
	}
	for _, c := range splitPath(l.Path) {
		if strings.HasPrefix(c, "[n") {
			var id int
			fmt.Sscanf(c, "[n%d]", &id)
			n := ir.byID(id)
			if n == nil || !ok(n) {
				return false
			}
		}
	}
	return true
}

func (ir *IR) byID(id int) *Node {
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.ID == id {
				return n
			}
		}
	}
	for _, n := range ir.mem.vals {
		if n.ID == id {
			return n
		}
	}
	for _, n := range ir.Params {
		if n.ID == id {
			return n
		}
	}
	return nil
}

// canonPass performs one round of value numbering and load promotion; it reports whether anything changed.
func (ir *IR) canonPass() bool {
	table := map[string]*Node{}
	changed := false
	set := func(n, r *Node) {
		r = r.canon()
		if n.canon() != r && r != n {
			n.repl = r
			changed = true
		}
	}
	hash := func(n *Node) string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d|%d|%d|%v%v%v%v|%s|", n.Op, n.Tok, n.Field, n.CommaOk, n.Lo, n.Hi, n.Max, n.Name)
		if n.Typ != nil {
			sb.WriteString(tname(n.Typ))
		}
		for _, a := range n.Args {
			fmt.Fprintf(&sb, "|%d", a.canon().ID)
		}
		return sb.String()
	}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Forced {
				continue
			}
			switch n.Op {
			case OPhi:
				var one *Node
				same := true
				for _, a := range n.Args {
					a = a.canon()
					if a == n.canon() || a == n {
						continue
					}
					if one == nil {
						one = a
					} else if one != a {
						same = false
					}
				}
				if same && one != nil {
					set(n, one)
				}
				continue
			case OLoad:
				t := n.Typ
				if structOf(t) != nil {
					continue
				}
				l := ir.loc(n.Args[0])
				v := ir.value(l, ir.verAt(l.Class, b, n.Idx))
				set(n, v)
				continue
			case OField:
				x := n.Args[0].canon()
				if x.Op == OConst {
					set(n, ir.zero(n.Typ))
					continue
				}
				if x.Op == OLoad {
					st := x.Typ
					path := fmt.Sprintf(".%d", n.Field)
					if structOf(n.Typ) == nil {
						set(n, ir.project(x, path, st, n.Typ, n))
						continue
					}
				}
			case OExtract:
				// forwarded below
			case OBin, OUn, OFieldAddr, OIndexAddr, OIndex, OSlice, OConvert, OChangeType, OMakeIface, OChangeIface, OTypeAssert:
			case OBuiltin:
				if n.Name != "len" && n.Name != "cap" {
					continue
				}
			case OCall:
				if !pureCall(n) {
					continue
				}
			default:
				continue
			}
			if n.repl == nil {
				if r := ir.foldNode(n); r != nil {
					set(n, r)
					continue
				}
			}
			if n.Op == OSlice && !n.Lo && !n.Hi && !n.Max {
				if _, ok := n.Args[0].Typ.Underlying().(*types.Slice); ok {
					set(n, n.Args[0])
					continue
				}
			}
			h := hash(n)
			if n.Op == OIndex && false {
				h = ""
			}
			if o := table[h]; o != nil && o != n {
				if n.repl == nil {
					set(n, o)
				}
			} else if n.repl == nil {
				table[h] = n
			}
		}
	}
	if changed {
		_ = sort.Strings
	}
	return changed
}

// pureCall: calls whose result depends only on their (immutable) arguments.
func pureCall(n *Node) bool {
	if n.Callee == nil || n.Callee.Pkg == nil && n.Callee.Object() == nil {
		return false
	}
	o := n.Callee.Object()
	if o == nil || o.Pkg() == nil {
		return false
	}
	if o.Pkg().Path() == "reflect" {
		switch o.Name() {
		case "Kind", "Type", "IsValid", "NumField", "ValueOf", "TypeOf", "CanSet", "CanAddr", "CanInterface", "NumMethod":
			return true
		}
	}
	return false
}

var _ = token.ADD
