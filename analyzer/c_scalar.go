package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: the untyped scalar payload is read and written only as the representation the value type says.

func init() {
	register("C20", (*Check).scalarRepresentation)
}

// valueTypes: names and numbers of the value types, from the source.
func (p *Program) valueTypes() map[string]int64 {
	out := map[string]int64{}
	sc := p.SSA.Pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || tname(c.Type()) != "ValueType" {
			continue
		}
		var v int64
		fmt.Sscan(c.Val().ExactString(), &v)
		out[n] = v
	}
	return out
}

func (p *Program) vtMask(names ...string) uint64 {
	t := p.valueTypes()
	var m uint64
	for _, n := range names {
		if v, ok := t[n]; ok && v >= 0 && v < 64 {
			m |= 1 << uint(v)
		}
	}
	return m
}

func (p *Program) maskNames(m uint64) string {
	var out []string
	t := p.valueTypes()
	for n, v := range t {
		if m&(1<<uint(v)) != 0 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	if len(out) == len(t) {
		return "any type"
	}
	return strings.Join(out, "/")
}

// dxField: index of a field of DxValue.
func (p *Program) dxField(name string) int {
	o := p.SSA.Pkg.Scope().Lookup("DxValue")
	if o == nil {
		return -1
	}
	s := structOf(o.Type())
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (p *Program) dxFieldType(name string) types.Type {
	s := structOf(p.SSA.Pkg.Scope().Lookup("DxValue").Type())
	return s.Field(p.dxField(name)).Type()
}

// fieldValue: content node of field `name` of the DxValue root points to, just before position idx of block b.
func (ir *IR) fieldValue(root *Node, name string, b *Block, idx int) *Node {
	p := ir.P
	cls := "DxValue." + name
	l := Loc{Root: root.canon(), Path: fmt.Sprintf(".%d", p.dxField(name)), Class: cls, Typ: p.dxFieldType(name), Exact: true}
	return ir.value(l, ir.verAt(cls, b, idx)).canon()
}

// fieldAlt: the same content for each object that a merged pointer may be.
type fieldAlt struct {
	root *Node
	alt  map[*Node]*Node
}

// fieldAlts is fieldValue, and remembers the content for each object a merged pointer stands for.
func (ir *IR) fieldAlts(alts map[*Node]*fieldAlt, root *Node, name string, b *Block, idx int) *Node {
	d := ir.fieldValue(root, name, b, idx)
	root = root.canon()
	if root.Op != OPhi || alts[d] != nil {
		return d
	}
	fa := &fieldAlt{root, map[*Node]*Node{}}
	alts[d] = fa
	seen := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		n = n.canon()
		if seen[n] || len(seen) > 24 {
			return
		}
		seen[n] = true
		if n.Op == OPhi {
			for _, a := range n.Args {
				walk(a)
			}
			return
		}
		if n.Op != OConst && n != root {
			fa.alt[n] = ir.fieldValue(n, name, b, idx)
		}
	}
	walk(root)
	return d
}

// pick: the content for the object the merged pointer is on this path.
func pick(alts map[*Node]*fieldAlt, st *FState, d *Node) *Node {
	if fa := alts[d]; fa != nil {
		if x := fa.alt[st.res(fa.root)]; x != nil {
			return x
		}
	}
	return d
}

// scalarPolicy inlines small functions and those that establish the type of a value.
func (p *Program) scalarPolicy() InlinePolicy {
	small := inlineUpTo(45)
	mid := inlineUpTo(140)
	sets := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if c, _, _ := classOfAddr(st.Addr); c == "DxValue.DataType" {
						sets[f] = true
					}
				}
			}
		}
	}
	return func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		return small(ir, g, depth, stack) || sets[g] && mid(ir, g, depth, stack)
	}
}

type repState struct {
	rep map[*Node]string // object -> what its payload was last written as
	dt  map[*Node]bool   // object -> its type was changed here
}

func (s *repState) Key() string {
	var ks []string
	for n, r := range s.rep {
		ks = append(ks, fmt.Sprintf("%d:%s", n.ID, r))
	}
	for n := range s.dt {
		ks = append(ks, fmt.Sprintf("t%d", n.ID))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s *repState) Clone() CState {
	n := &repState{map[*Node]string{}, map[*Node]bool{}}
	for k, v := range s.rep {
		n.rep[k] = v
	}
	for k, v := range s.dt {
		n.dt[k] = v
	}
	return n
}

func (s *repState) Prune(keep func(*Node) bool) {}

func (s *repState) Reenter(st *FState, gone func(*Node) bool, phis map[*Node]*Node) {
	for k := range s.rep {
		if gone(k) {
			delete(s.rep, k)
		}
	}
	for k := range s.dt {
		if gone(k) {
			delete(s.dt, k)
		}
	}
}

type scalarChk struct {
	p       *Program
	r       *Result
	req     map[*ssa.Function]map[int]uint64 // parameter must be of one of these types
	retDT   map[*ssa.Function]int            // result's type is this parameter (-1: no)
	changed bool
	final   bool
	scalars uint64
}

func (sc *scalarChk) allowed(t types.Type) (uint64, string) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, ""
	}
	switch b.Kind() {
	case types.Int64, types.Int:
		return sc.p.vtMask("VT_Int"), "an integer"
	case types.Float64:
		return sc.p.vtMask("VT_Double", "VT_DateTime"), "a double"
	case types.Float32:
		return sc.p.vtMask("VT_Float"), "a single"
	}
	return 0, ""
}

func isPayload(l Loc) bool {
	return l.Class == "DxValue.simpleV" && strings.Contains(l.Path, "#") && l.Root.Typ != nil && tname(l.Root.Typ) == "*DxValue"
}

func (sc *scalarChk) unit(u *unit) {
	ir := u.IR
	alts := map[*Node]*fieldAlt{}
	fv := func(root *Node, name string, b *Block, idx int) *Node { return ir.fieldAlts(alts, root, name, b, idx) }
	fl := &Flow{IR: ir, Max: 24, Init: &repState{map[*Node]string{}, map[*Node]bool{}}}
	dtAt := map[*Node]*Node{}
	roots := map[*Node]bool{}
	retDT := map[*Node]map[*Node]*Node{}
	need := false
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			switch n.Op {
			case OLoad, OStore:
				l := ir.loc(n.Args[0])
				if isPayload(l) {
					dtAt[n] = fv(l.Root, "DataType", b, n.Idx)
					need = true
					if n.Op == OStore {
						roots[l.Root.canon()] = true
					}
				} else if n.Op == OStore && (l.Class == "DxValue.DataType" || l.Class == "DxValue.simpleV") && tname(l.Root.Typ) == "*DxValue" {
					roots[l.Root.canon()] = true
					need = true
				}
			case OCall, ODefer:
				if n.Callee != nil {
					for i := range sc.req[n.Callee] {
						if i < len(n.Args) && tname(n.Args[i].canon().Typ) == "*DxValue" {
							dtAt[n] = fv(n.Args[i], "DataType", b, n.Idx)
							need = true
						}
					}
				}
			}
		}
	}
	// whole payloads copied or compared as bytes: both values must have the same representation
	type pair struct {
		a, b   *Node
		da, db *Node
	}
	pairs := map[*Node]*pair{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			var x, y *Node
			switch {
			case n.Op == OStore:
				if l := ir.loc(n.Args[0]); l.Class == "DxValue.simpleV" && !strings.Contains(l.Path, "#") && tname(l.Root.Typ) == "*DxValue" {
					x, y = l.Root, payloadOf(ir, n.Args[1])
				}
			case n.Op == OBuiltin && n.Name == "copy",
				n.Op == OCall && n.Callee != nil && len(n.Args) == 2 && (n.Callee.String() == "bytes.Compare" || n.Callee.String() == "bytes.Equal"),
				n.Op == OBin && (n.Tok == token.EQL || n.Tok == token.NEQ):
				x, y = payloadOf(ir, n.Args[0]), payloadOf(ir, n.Args[1])
			}
			if x == nil || y == nil || x.canon() == y.canon() {
				continue
			}
			pairs[n] = &pair{x.canon(), y.canon(), fv(x, "DataType", b, n.Idx), fv(y, "DataType", b, n.Idx)}
			need = true
			if n.Op == OStore || n.Op == OBuiltin {
				roots[x.canon()] = true
			}
		}
	}
	var rets []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OReturn {
				rets = append(rets, n)
				retDT[n] = map[*Node]*Node{}
				for x := range roots {
					if x.Blk == nil || x.Blk == b || x.Blk.dominates(b) || x.Op == OParam {
						retDT[n][x] = fv(x, "DataType", b, n.Idx)
					}
				}
				for i, a := range n.Args {
					if tname(a.Typ) == "*DxValue" && i == 0 {
						retDT[n][a.canon()] = fv(a, "DataType", b, n.Idx)
						need = true
					}
				}
			}
		}
	}
	if !need {
		return
	}
	fl.prepare()
	fl.Edge = sc.p.constFacts(ir, dtNodes(ir))
	for _, d := range dtAt {
		fl.Keep(d)
	}
	for _, m := range retDT {
		for _, d := range m {
			fl.Keep(d)
		}
	}
	pairByID := map[string]*Node{}
	for n, q := range pairs {
		fl.Keep(q.da)
		fl.Keep(q.db)
		pairByID[fmt.Sprintf("C%d", n.ID)] = n
	}
	for _, n := range ir.mem.vals {
		if constGlobal(n) {
			fl.Keep(n)
		}
	}
	tracked := map[*Node]bool{}
	fl.Track = func(n *Node) bool {
		if v, ok := tracked[n]; ok {
			return v
		}
		t := n.Typ != nil && (tname(n.Typ) == "*DxValue" || tname(n.Typ) == "ValueType" || isBoolNode(n) && n.Op != OBin)
		tracked[n] = t
		return t
	}
	for _, a := range alts {
		for _, d := range a.alt {
			fl.Keep(d)
		}
		fl.Keep(a.root)
	}
	var maskOf func(st *FState, d *Node) uint64
	maskOf = func(st *FState, d *Node) uint64 {
		// the type of what a function returns may be known from its arguments
		if e := pick(alts, st, d); e != d {
			if m := maskOf(st, e); m != 0 {
				w, ok := st.val(d).asMask()
				if !ok {
					w = rangeMask(st.val(d))
				}
				return m & w
			}
		}
		x := st.res(d)
		if x.Op == OHavoc || x.Op == OInit {
			if x.MemLoc != nil {
				if m, ok := sc.callResultMask(st, x); ok {
					return m
				}
			}
		}
		m, ok := st.val(d).asMask()
		if !ok {
			v := st.val(d)
			return rangeMask(v)
		}
		return m
	}
	all := uint64(0)
	for _, v := range sc.p.valueTypes() {
		all |= 1 << uint(v)
	}
	bad := map[*Node]string{}
	okN := map[*Node]bool{}
	require := func(st *FState, n, root *Node, d *Node, al uint64, what string) {
		m := maskOf(st, d) & all
		if m&^al == 0 {
			okN[n] = true
			return
		}
		r := st.res(root)
		if r.Op == OParam && st.res(pick(alts, st, d)).Op == OInit && !isExported(u.Fn) && !dynCallable(sc.p, u.Fn) {
			for i, q := range ir.Params {
				if q == r {
					old, has := all, false
					if o, ok := sc.req[u.Fn][i]; ok {
						old, has = o, true
					}
					if !has || old&al != old {
						if sc.req[u.Fn] == nil {
							sc.req[u.Fn] = map[int]uint64{}
						}
						sc.req[u.Fn][i] = old & al
						sc.changed = true
					}
					okN[n] = true
					return
				}
			}
		}
		if _, dup := bad[n]; !dup {
			bad[n] = fmt.Sprintf("%s a value that may be of type %s here", what, sc.p.maskNames(m&^al))
		}
	}
	classOf := func(t int64) (uint64, string) {
		m := uint64(1) << uint(t)
		for _, k := range []types.BasicKind{types.Int64, types.Float64, types.Float32} {
			if al, w := sc.allowed(types.Typ[k]); al&m != 0 {
				return al, w
			}
		}
		return 0, ""
	}
	classes := []uint64{}
	for _, k := range []types.BasicKind{types.Int64, types.Float64, types.Float32} {
		al, _ := sc.allowed(types.Typ[k])
		classes = append(classes, al)
		sc.scalars |= al
	}
	// differ: the two types may be types of different representations, on the evidence of this path
	differ := func(st *FState, n, x, y *Node, how string) {
		okN[n] = true
		if x2, y2 := pick(alts, st, x), pick(alts, st, y); st.res(x2) == st.res(y2) {
			return
		}
		if eq, known := st.fact[eqKey(st.res(x), st.res(y))]; st.res(x) == st.res(y) || known && eq {
			return
		}
		mx, my := maskOf(st, x)&all, maskOf(st, y)&all
		neq, known := st.fact[eqKey(st.res(x), st.res(y))]
		if os.Getenv("DXPAIR") != "" {
			fmt.Println("PAIR", fnName(u.Fn), n.dump(), sc.p.maskNames(mx), sc.p.maskNames(my), neq, known, st.res(x).dump(), st.res(y).dump(), sc.unknownParam(u, st, x), sc.unknownParam(u, st, y))
		}
		distinct := known && !neq
		one := func(m uint64) (uint64, bool) {
			for _, c := range classes {
				if m != 0 && m&^c == 0 {
					return c, true
				}
			}
			return 0, false
		}
		cx, ox := one(mx)
		cy, oy := one(my)
		var w uint64
		switch {
		case ox:
			w = my & sc.scalars &^ cx
		case oy:
			w = mx & sc.scalars &^ cy
		case distinct:
			w = mx & my & sc.scalars
		}
		if w == 0 || sc.unknownParam(u, st, x) || sc.unknownParam(u, st, y) {
			return
		}
		if bad[n] == "" {
			bad[n] = how + " the payloads of two values that may have different types here, one of them " + sc.p.maskNames(w)
		}
	}
	entryDT := func(x *Node) *Node { return ir.value(Loc{Root: x, Path: fmt.Sprintf(".%d", sc.p.dxField("DataType")), Class: "DxValue.DataType", Typ: sc.p.dxFieldType("DataType"), Exact: true}, version{}).canon() }
	fl.Step = func(st *FState, n *Node) bool {
		rs := st.C.(*repState)
		if q := pairs[n]; q != nil && n.Op != OStore && n.Op != OBuiltin {
			differ(st, n, q.da, q.db, "compares as bytes")
		}
		switch n.Op {
		case OLoad:
			if d := dtAt[n]; d != nil {
				l := ir.loc(n.Args[0])
				if al, w := sc.allowed(l.Typ); al != 0 {
					require(st, n, l.Root, d, al, "reads as "+w+" the payload of")
				}
			}
		case OStore:
			l := ir.loc(n.Args[0])
			x := l.Root.canon()
			switch {
			case isPayload(l):
				if al, _ := sc.allowed(l.Typ); al != 0 {
					rs.rep[x] = "T" + tname(l.Typ.Underlying())
				} else {
					rs.rep[x] = "raw"
				}
			case pairs[n] != nil:
				rs.rep[x] = fmt.Sprintf("C%d", n.ID)
			case l.Class == "DxValue.simpleV" && roots[x]:
				if v := n.Args[1].canon(); v.Op == OConst && l.Path == fmt.Sprintf(".%d", sc.p.dxField("simpleV")) {
					rs.rep[x] = "zero"
				} else {
					rs.rep[x] = "raw"
				}
			case l.Class == "DxValue.DataType" && roots[x]:
				rs.dt[x] = true
			case l.Class == "*DxValue" && roots[x]:
				rs.rep[x] = "raw"
			}
		case OBuiltin:
			if pairs[n] != nil {
				rs.rep[pairs[n].a] = fmt.Sprintf("C%d", n.ID)
			} else if n.Name == "copy" {
				a := n.Args[0].canon()
				if a.Op == OSlice {
					if l := ir.loc(a.Args[0]); l.Class == "DxValue.simpleV" {
						rs.rep[l.Root.canon()] = "raw"
					}
				}
			}
		case OCall, ODefer:
			if n.Callee == nil {
				break
			}
			for i, al := range sc.req[n.Callee] {
				if d := dtAt[n]; d != nil && i < len(n.Args) && tname(n.Args[i].canon().Typ) == "*DxValue" {
					require(st, n, n.Args[i], d, al, "hands to "+fnName(n.Callee)+", which uses its payload as "+sc.p.maskNames(al)+",")
				}
			}
			// an object handed to another function may have anything done to it there
			for _, a := range n.Args {
				if x := a.canon(); roots[x] && ir.P.internal(n.Callee) && ir.P.mods[n.Callee].classes["DxValue.simpleV"] {
					rs.rep[x] = "raw"
				} else if o := ownerOf(a); o != nil && roots[o.canon()] && a.canon().Op == OSlice {
					rs.rep[o.canon()] = "raw"
				}
			}
		case OReturn:
			ds := retDT[n]
			for x, rep := range rs.rep {
				d := ds[x]
				if d != nil && pairByID[rep] != nil {
					cp := pairByID[rep]
					d = pick(alts, st, d)
					if pd := sc.callResultParam(st, d); pd != nil {
						d = pd
					}
					differ(st, cp, d, pairs[cp].db, "copies as bytes")
					continue
				}
				if d == nil || !strings.HasPrefix(rep, "T") {
					continue
				}
				var al uint64
				var w string
				for _, k := range []types.BasicKind{types.Int64, types.Float64, types.Float32, types.Int} {
					if "T"+types.Typ[k].Name() == rep {
						al, w = sc.allowed(types.Typ[k])
					}
				}
				if al == 0 {
					continue
				}
				// report at the store
				var at *Node
				for _, b := range ir.Blocks {
					for _, s := range b.Nodes {
						if s.Op == OStore && ir.loc(s.Args[0]).Root.canon() == x && isPayload(ir.loc(s.Args[0])) {
							at = s
						}
					}
				}
				if at == nil {
					at = n
				}
				require(st, at, x, d, al, "stores "+w+" in")
			}
			for x := range rs.dt {
				if _, written := rs.rep[x]; written {
					continue
				}
				d := ds[x]
				if d == nil {
					continue
				}
				if x.Op == OAlloc || x.Op == OIndexAddr {
					continue // a new object has a zero payload
				}
				v, one := st.val(d).exact()
				if !one {
					continue
				}
				al, w := classOf(v)
				if al == 0 {
					continue
				}
				e := entryDT(x)
				require(st, n, x, e, al, "gives the type of "+w+" to, but leaves the payload of,")
			}
			// type of the result
			if len(n.Args) > 0 && tname(n.Args[0].Typ) == "*DxValue" {
				a := n.Args[0].canon()
				d := ds[a]
				cur, seen := sc.retDT[u.Fn]
				if cur != -1 && d != nil && !n.Args[0].canon().IsNil {
					pi := -1
					d = pick(alts, st, d)
					rd := st.res(d)
					for i, q := range ir.Params {
						if q == rd || tname(q.Typ) == "ValueType" && factEq(st, rd, q) {
							pi = i
						}
					}
					if !seen {
						sc.retDT[u.Fn] = pi
						sc.changed = true
					} else if cur != pi {
						sc.retDT[u.Fn] = -1
						sc.changed = true
					}
				}
			}
		}
		return true
	}
	fl.run()
	if fl.Too {
		sc.r.Counts["too_large"]++
		return
	}
	if !sc.final {
		return
	}
	for n := range okN {
		if bad[n] == "" {
			sc.r.count("payload_uses")
		}
	}
	var ns []*Node
	for n := range bad {
		ns = append(ns, n)
	}
	sortNodes(ns)
	for _, n := range ns {
		sc.r.count("payload_uses")
		sc.r.bad(sc.p, "scalar-representation", n.Pos, n.Frame.chain(sc.p), "%s", bad[n])
	}
}

func factEq(st *FState, a, b *Node) bool {
	if a == b {
		return true
	}
	if v, ok := st.fact[eqKey(a, b)]; ok {
		return v
	}
	x, xo := st.val(a).exact()
	y, yo := st.val(b).exact()
	return xo && yo && x == y
}

// payloadOf: the value whose whole payload this operand is (the array itself, or a slice of all of it).
func payloadOf(ir *IR, a *Node) *Node {
	a = a.canon()
	var l Loc
	switch {
	case a.Op == OSlice:
		l = ir.loc(a.Args[0])
	case a.Op == OLoad:
		l = ir.loc(a.Args[0])
	case a.MemLoc != nil:
		l = *a.MemLoc
	default:
		return nil
	}
	if l.Class != "DxValue.simpleV" || strings.Contains(l.Path, "#") || l.Root == nil || tname(l.Root.Typ) != "*DxValue" {
		return nil
	}
	return l.Root
}

// unknownParam: the type of a parameter of an internal function, about which only its callers know.
func (sc *scalarChk) unknownParam(u *unit, st *FState, d *Node) bool {
	x := st.res(d)
	if x.Op != OInit || x.MemLoc == nil || isExported(u.Fn) || dynCallable(sc.p, u.Fn) {
		return false
	}
	_, known := st.val(d).asMask()
	return !known && x.MemLoc.Root.canon().Op == OParam
}

// callResultParam: the argument that says of which type the value just returned is.
func (sc *scalarChk) callResultParam(st *FState, d *Node) *Node {
	x := st.res(d)
	if x.Op != OHavoc && x.Op != OInit || x.MemLoc == nil {
		return nil
	}
	root := st.res(x.MemLoc.Root)
	if root.Op != OCall || root.Callee == nil {
		return nil
	}
	if pi, ok := sc.retDT[root.Callee]; ok && pi >= 0 && pi < len(root.Args) && (x.Op == OHavoc && x.Blk == root.Blk && x.Idx == root.Idx || x.Op == OInit) {
		return root.Args[pi]
	}
	return nil
}

// callResultMask: the type of a value a function just returned, when that function gives it the type it is passed.
func (sc *scalarChk) callResultMask(st *FState, d *Node) (uint64, bool) {
	root := st.res(d.MemLoc.Root)
	if root.Op != OCall || root.Callee == nil {
		return 0, false
	}
	pi, ok := sc.retDT[root.Callee]
	if !ok || pi < 0 || pi >= len(root.Args) {
		return 0, false
	}
	// unchanged since the call
	if d.Op == OHavoc && d.Blk == root.Blk && d.Idx == root.Idx || d.Op == OInit {
		m, ok := st.val(root.Args[pi]).asMask()
		return m, ok
	}
	return 0, false
}

func (c *Check) scalarRepresentation() *Result {
	r := newResult()
	r.Min = 20
	r.Rules = []string{
		"every read of the 8-byte payload as an integer, double (or time) or single happens on paths where the type of that value is known to be one with this representation",
		"after every write of the payload as one of these, the value leaves the function with a type of that representation",
		"a value whose type is set to a scalar type leaves the function with a payload written, cleared or copied to match",
	}
	r.Assumptions = []string{"double and time share one representation (days as a double)", "a payload copied as raw bytes is copied together with its type (C11)"}
	sc := &scalarChk{p: c.P, r: r, req: map[*ssa.Function]map[int]uint64{}, retDT: map[*ssa.Function]int{}}
	us := c.P.units(c.P.scalarPolicy())
	for round := 0; round < 12; round++ {
		sc.changed = false
		for _, u := range us {
			sc.unit(u)
		}
		if !sc.changed {
			break
		}
	}
	sc.final = true
	for _, u := range us {
		r.Functions[fnName(u.Fn)] = true
		sc.unit(u)
	}
	return r
}
