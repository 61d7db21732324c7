package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: lookups find exactly the addressed member, and getters give the default exactly when there is none.

func init() {
	register("C19", (*Check).defaultedGetters)
}

// nilState: 1 when the value is nil on this path, -1 when it is not, 0 when that is not known.
func (s *FState) nilState(n *Node) int {
	n = s.res(n)
	if n.Op == OConst && n.IsNil {
		return 1
	}
	if neverNil(n) {
		return -1
	}
	for k, v := range s.fact {
		if k.op == token.EQL && k.b != nil && (k.a == n && k.b.IsNil || k.b == n && k.a.IsNil) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// elemLoc: the element of a slice the node is the content of (or the address of, for addresses).
func (ir *IR) elemLoc(n *Node) (slice, idx *Node, field string) {
	n = rawNode(n)
	var l Loc
	switch {
	case n.Op == OLoad:
		l = ir.loc(n.Args[0])
	case n.MemLoc != nil:
		l = *n.MemLoc
	case n.Op == OIndexAddr || n.Op == OFieldAddr:
		l = ir.loc(n)
	default:
		return
	}
	return ir.elemOfLoc(l)
}

func (ir *IR) elemOfLoc(l Loc) (slice, idx *Node, field string) {
	if l.Root != nil && l.Root.Op == OAlloc && l.Path != "" && !strings.HasPrefix(l.Path, "[") {
		// a member copied to a local variable
		var src *Node
		for _, b := range ir.Blocks {
			for _, n := range b.Nodes {
				if n.Op == OStore {
					if sl := ir.loc(n.Args[0]); sl.Root.canon() == l.Root.canon() {
						if sl.Path != "" || src != nil {
							return
						}
						src = rawNode(n.Args[1])
					}
				}
			}
		}
		if src == nil || src.Op != OLoad {
			return
		}
		slice, idx, field = ir.elemLoc(src)
		if slice == nil || field != "" {
			return nil, nil, ""
		}
		if i := strings.LastIndexByte(l.Class, '.'); i >= 0 {
			field = l.Class[i+1:]
		}
		return
	}
	if l.Root == nil || !strings.HasPrefix(l.Path, "[") {
		return
	}
	if _, ok := l.Root.Typ.Underlying().(*types.Slice); !ok {
		return
	}
	e := strings.IndexByte(l.Path, ']')
	in := l.Path[1:e]
	if strings.HasPrefix(in, "n") {
		id, err := strconv.Atoi(in[1:])
		if err != nil {
			return
		}
		idx = ir.byID(id)
	} else {
		v, err := strconv.ParseInt(in, 10, 64)
		if err != nil {
			return
		}
		idx = ir.intConst(v, types.Typ[types.Int])
	}
	if idx == nil {
		return
	}
	slice = l.Root.canon()
	rest := l.Path[e+1:]
	if rest == "" {
		field = ""
	} else if i := strings.LastIndexByte(l.Class, '.'); i >= 0 {
		field = l.Class[i+1:]
	}
	return
}

// sliceField: the slice is the content of one of the containers of a value: "DxValue.farr" or "VObject.strkvs".
func (ir *IR) sliceField(s *Node) (class string, owner *Node) {
	s = s.canon()
	var l Loc
	switch {
	case s.Op == OLoad:
		l = ir.loc(s.Args[0])
	case s.MemLoc != nil:
		l = *s.MemLoc
	default:
		return
	}
	if l.Class == "DxValue.farr" || l.Class == "VObject.strkvs" {
		return l.Class, l.Root.canon()
	}
	return
}

func stripConv(st *FState, n *Node) *Node {
	for i := 0; i < 8; i++ {
		n = st.res(n)
		if (n.Op == OConvert || n.Op == OChangeType) && isIntType(n.Typ) && isIntType(n.Args[0].Typ) {
			n = n.Args[0]
			continue
		}
		return n
	}
	return n
}

// linOf: n = base + k
func linOf(st *FState, n *Node) (*Node, int64) {
	k := int64(0)
	for i := 0; i < 8; i++ {
		n = stripConv(st, n)
		if n.Op == OBin && (n.Tok == token.ADD || n.Tok == token.SUB) {
			if c, ok := constIntOf(st.res(n.Args[1])); ok {
				if n.Tok == token.SUB {
					c = -c
				}
				k += c
				n = n.Args[0]
				continue
			}
			if c, ok := constIntOf(st.res(n.Args[0])); ok && n.Tok == token.ADD {
				k += c
				n = n.Args[1]
				continue
			}
		}
		break
	}
	return n, k
}

// diffBounds: what the path knows about x minus any value for which isY holds.
func (s *FState) diffBounds(x *Node, isY func(*Node) bool) (lo, hi int64) {
	lo, hi = math.MinInt64, inf
	x, xk := linOf(s, x)
	for k, v := range s.fact {
		if k.b == nil {
			continue
		}
		a, ak := linOf(s, k.a)
		b, bk := linOf(s, k.b)
		op := k.op
		if b == x && isY(a) {
			a, b, ak, bk = b, a, bk, ak
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		} else if !(a == x && isY(b)) {
			continue
		}
		if !v {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				continue
			}
		}
		// x + ak OP y + bk  =>  x - y OP bk - ak ; asked: (x + xk) - y
		d := bk - ak + xk
		switch op {
		case token.LSS:
			hi = min(hi, d-1)
		case token.LEQ:
			hi = min(hi, d)
		case token.GTR:
			lo = max(lo, d+1)
		case token.GEQ:
			lo = max(lo, d)
		case token.EQL:
			lo, hi = max(lo, d), min(hi, d)
		}
	}
	return
}

var defName = regexp.MustCompile(`(?i)^def`)

type lookupChk struct {
	p       *Program
	r       *Result
	lookups map[*ssa.Function]string // "item" or "index"
	convs   map[*ssa.Function]bool
}

func recvIs(f *ssa.Function, names ...string) bool {
	if len(f.Params) == 0 || f.Signature.Recv() == nil {
		return false
	}
	t := tname(f.Params[0].Type())
	for _, n := range names {
		if t == n {
			return true
		}
	}
	return false
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// reader: nothing but the lazily unescaped texts is changed.
func (p *Program) writesOnlyTexts(f *ssa.Function) (string, bool) {
	ms := p.mods[f]
	if ms == nil {
		return "", true
	}
	var l []string
	for c := range ms.classes {
		switch c {
		case "VObject.keysUnescaped", "strkv.K", "DxValue.DataType", "DxValue.fstrvalue":
			continue
		case "DxValue.farr", "VObject.strkvs", "strkv.V", "DxValue.simpleV", "DxValue.fbinary", "DxValue.ExtType", "DxValue.fobject", "[]*DxValue", "[]strkv", "*DxValue", "*VObject":
			l = append(l, c)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", "), len(l) == 0
}

func (c *Check) defaultedGetters() *Result {
	r := newResult()
	r.Min = 15
	r.Rules = []string{
		"a getter with a default returns the default only on paths on which the lookup of the addressed member gave nothing",
		"otherwise it returns the conversion of exactly the value the lookup of its own name, index or path gave, without narrowing it",
		"a lookup gives nothing only when every member has been compared, or the index is out of range, or the value has no members; it gives only the member at the requested index or with the requested key",
		"a path lookup descends through every element of the path",
		"getters and lookups write nothing but lazily unescaped text",
	}
	r.Assumptions = []string{"a getter's default parameter is named def…; what an unconvertible content converts to is part of the conversion (Duration uses its default for that)"}
	lc := &lookupChk{p: c.P, r: r, lookups: map[*ssa.Function]string{}, convs: map[*ssa.Function]bool{}}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	// candidates
	dxPtr := func(t types.Type) bool { return tname(t) == "*DxValue" }
	for _, f := range p.Funcs {
		if !p.internal(f) || len(f.Blocks) == 0 || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		res := f.Signature.Results()
		if !recvIs(f, "*DxValue", "*VObject") || res.Len() != 1 {
			continue
		}
		if len(f.Params) == 1 && recvIs(f, "*DxValue") && !dxPtr(res.At(0).Type()) && !isBoolType(res.At(0).Type()) && tname(res.At(0).Type()) != "int" && tname(res.At(0).Type()) != "ValueType" || f.Name() == "Bool" || f.Name() == "Duration" {
			lc.convs[f] = true
			continue
		}
		if len(f.Params) != 2 {
			continue
		}
		at := f.Params[1].Type()
		if !isString(at) && !isStrings(at) && tname(at) != "int" {
			continue
		}
		if _, ok := p.writesOnlyTexts(f); !ok {
			continue
		}
		switch {
		case dxPtr(res.At(0).Type()):
			lc.lookups[f] = "item"
		case tname(res.At(0).Type()) == "int" && isString(at) && recvIs(f, "*VObject", "*DxValue"):
			lc.lookups[f] = "index"
		}
	}
	var getters []*ssa.Function
	used := map[*ssa.Function]bool{}
	// a lookup that changes the tree is still one
	for _, f := range p.Funcs {
		if !recvIs(f, "*DxValue") || !f.Object().Exported() || f.Signature.Results().Len() != 1 || f.Synthetic != "" {
			continue
		}
		if dxPtr(f.Signature.Results().At(0).Type()) {
			continue
		}
		def := -1
		addr := false
		for i, q := range f.Params[1:] {
			if defName.MatchString(q.Name()) && types.Identical(q.Type(), f.Signature.Results().At(0).Type()) {
				def = i + 1
			} else if isString(q.Type()) || isStrings(q.Type()) || tname(q.Type()) == "int" {
				addr = true
			}
		}
		if def > 0 && addr {
			getters = append(getters, f)
		}
	}
	small := inlineUpTo(60)
	policy := func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if lc.lookups[g] != "" || lc.convs[g] {
			return false
		}
		return small(ir, g, depth, stack)
	}
	for _, f := range getters {
		if what, ok := p.writesOnlyTexts(f); !ok {
			r.count("getters")
			r.bad(p, "getter-writes", f.Pos(), fnName(f), "the getter may change the tree: it (or what it calls) writes %s", what)
		}
		for g := range p.reachable([]*ssa.Function{f}) {
			if lc.lookups[g] != "" {
				used[g] = true
			}
		}
	}
	// the lookups that other readers and the setters rely on
	for f, k := range lc.lookups {
		if k == "index" || isExported(f) {
			used[f] = true
		}
	}
	for _, f := range getters {
		ir := p.buildIR(f, policy)
		p.alias()
		ir.promote()
		r.Functions[fnName(f)] = true
		lc.getter(f, ir)
	}
	for _, f := range p.Funcs {
		if !used[f] {
			continue
		}
		ir := p.buildIR(f, policy)
		ir.promote()
		r.Functions[fnName(f)] = true
		lc.lookup(f, ir)
	}
	return r
}

// addrOf: what a lookup is asked for: the parameter of the function (whole), or nil.
func (lc *lookupChk) addrOf(ir *IR, st *FState, a *Node) (param *Node, exact bool, why string) {
	a = stripConv(st, a)
	if a.Op == OParam {
		return a, true, ""
	}
	// a one-element list made of a parameter
	if a.Op == OSlice {
		base := a.Args[0].canon()
		if base.Op == OAlloc {
			var el *Node
			n := 0
			for _, b := range ir.Blocks {
				for _, s := range b.Nodes {
					if s.Op == OStore {
						if l := ir.loc(s.Args[0]); l.Root.canon() == base {
							n++
							el = s.Args[1]
						}
					}
				}
			}
			if arr, ok := deref(base.Typ).Underlying().(*types.Array); ok && arr.Len() == 1 && n == 1 {
				q := st.res(el)
				if q.Op == OParam {
					return q, true, ""
				}
				return nil, false, ""
			}
		}
		if s := st.res(base); s.Op == OParam && isStrings(s.Typ) {
			if a.Lo && !isZeroConst(a.Args[1]) || a.Hi {
				return s, false, "only a part of the path"
			}
			return s, true, ""
		}
	}
	if b, k := linOf(st, a); b.Op == OParam && k != 0 {
		return b, false, "another index"
	}
	return nil, false, ""
}

type getState struct{ looked map[*Node]bool }

func (s *getState) Key() string {
	var l []string
	for n := range s.looked {
		l = append(l, fmt.Sprint(n.ID))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}
func (s *getState) Clone() CState {
	n := &getState{map[*Node]bool{}}
	for k := range s.looked {
		n.looked[k] = true
	}
	return n
}

func (lc *lookupChk) getter(f *ssa.Function, ir *IR) {
	p, r := lc.p, lc.r
	var def *Node
	for i, q := range f.Params {
		if i > 0 && defName.MatchString(q.Name()) && types.Identical(q.Type(), f.Signature.Results().At(0).Type()) {
			def = ir.Params[i]
		}
	}
	recv := ir.Params[0]
	fl := &Flow{IR: ir, Max: 64, Init: &getState{map[*Node]bool{}}}
	fl.prepare()
	dts := map[*Node]*Node{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			fl.Keep(n)
			if n.Op == OReturn {
				dts[n] = ir.fieldValue(recv, "DataType", b, n.Idx)
				fl.Keep(dts[n])
			}
		}
	}
	containers := p.vtMask("VT_Object", "VT_Array")
	bad := map[string]bool{}
	fail := func(n *Node, msg string, a ...interface{}) {
		s := fmt.Sprintf(msg, a...)
		if bad[s] || fl.unsure() {
			return
		}
		bad[s] = true
		pos := n.Pos
		if !pos.IsValid() {
			pos = f.Pos()
		}
		r.bad(p, "getter-default", pos, fnName(f), "%s", s)
	}
	isLook := func(n *Node) bool { return n.Op == OCall && n.Callee != nil && lc.lookups[n.Callee] == "item" }
	fl.Step = func(st *FState, n *Node) bool {
		gs := st.C.(*getState)
		if isLook(n) {
			gs.looked[n] = true
			for _, a := range n.Args[1:] {
				if stripConv(st, a) == def || st.res(a) == def {
					fail(n, "the default value is used as the name or index of the member")
				}
				if a := st.res(a); a.Op == OSlice {
					if q, _, _ := lc.addrOf(ir, st, a); q == def {
						fail(n, "the default value is used as the name of the member")
					}
				}
			}
		}
		if n.Op != OReturn || len(n.Args) != 1 {
			return true
		}
		v := n.Args[0]
		// conversions on the way
		var x *Node
		for i := 0; i < 8; i++ {
			x = st.res(v)
			if x.Op == OConvert || x.Op == OChangeType {
				fb, fs, ok1 := kindBits(x.Args[0].Typ)
				tb, ts, ok2 := kindBits(x.Typ)
				if x.Op == OConvert && !(ok1 && ok2 && fs == ts && tb >= fb) && !isWord(x.Args[0].Typ, x.Typ) && !types.Identical(x.Args[0].Typ.Underlying(), x.Typ.Underlying()) {
					fail(n, "the content (or the default) is converted from %s to %s on its way, so it does not come back unchanged", tname(x.Args[0].Typ), tname(x.Typ))
				}
				v = x.Args[0]
				continue
			}
			break
		}
		var items []*Node
		for l := range gs.looked {
			items = append(items, l)
		}
		sortNodes(items)
		switch {
		case x == def:
			missing := false
			for _, it := range items {
				if st.nilState(it) == 1 {
					missing = true
				}
			}
			if missing {
				return true
			}
			if len(items) > 0 {
				fail(n, "the default is returned although the lookup at %s may have found the member", p.pos(items[len(items)-1].Pos))
				return true
			}
			if st.nilState(recv) == 1 {
				return true
			}
			if m, ok := st.val(dts[n]).asMask(); ok && m&containers == 0 {
				return true
			}
			for _, q := range ir.Params[1:] {
				if isIntType(q.Typ) && q != def {
					w := typeRange(q.Typ)
					if v := st.val(q); v.lo != w.lo || v.hi != w.hi {
						return true
					}
					for k := range st.fact {
						if k.a == q || k.b == q {
							return true
						}
					}
				}
			}
			for k, v := range st.fact {
				if v && k.op == token.EQL && (constGlobal(k.a) || k.b != nil && constGlobal(k.b)) {
					return true
				}
			}
			fail(n, "the default is returned on a path on which the member is not looked up")
		case x.Op == OCall && x.Callee != nil && lc.convs[x.Callee]:
			it := st.res(x.Args[0])
			switch {
			case it == recv:
				if len(ir.Params) > 1 {
					for _, q := range ir.Params[1:] {
						if isStrings(q.Typ) {
							if v := st.val(q); v.hi == 0 {
								return true
							}
							for k := range st.fact {
								if isLenOf(k.a, q) || k.b != nil && isLenOf(k.b, q) {
									return true
								}
							}
						}
					}
				}
				fail(n, "the value itself is converted, not the addressed member")
			case isLook(it):
				if st.nilState(it) == 1 {
					fail(n, "nothing was found, but it is converted instead of returning the default")
				}
				if st.res(it.Args[0]) == recv && len(it.Args) > 1 {
					if q, exact, why := lc.addrOf(ir, st, it.Args[1]); q != nil && !exact {
						fail(it, "the getter looks for %s, not for what it is asked for", why)
					}
				}
			}
		case x.Op == OConst && !isBoolNode(x):
			conv := false
			for _, b := range ir.Blocks {
				for _, c := range b.Nodes {
					if c.Op == OCall && c.Callee != nil && lc.convs[c.Callee] {
						conv = true
					}
				}
			}
			for _, it := range items {
				if st.nilState(it) == 1 {
					fail(n, "a constant is returned instead of the default when nothing was found")
				} else if conv && st.nilState(it) == -1 {
					fail(n, "a constant is returned instead of the content of the member")
				}
			}
		case isBoolNode(x) || x.Op == OConst:
			for _, it := range items {
				switch st.nilState(it) {
				case 1:
					// equal to the default on this path?
					dv, ok1 := st.decide(def, 0)
					xv, ok2 := st.decide(x, 0)
					if !(ok1 && ok2 && dv == xv) {
						fail(n, "something else than the default is returned when nothing was found")
					}
				case -1:
					ok := x.Op != OConst
					for _, b := range ir.Blocks {
						for _, c := range b.Nodes {
							if c.Op == OCall && c.Callee != nil && lc.convs[c.Callee] {
								cv, k1 := st.decide(c, 0)
								xv, k2 := st.decide(x, 0)
								if k1 && k2 && cv == xv {
									ok = true
								}
							}
						}
					}
					if !ok {
						fail(n, "a constant is returned instead of the content of the member")
					}
				}
			}
		}
		return true
	}
	fl.run()
	if fl.Too {
		r.Counts["too_large"]++
		return
	}
	r.count("getters")
	r.sample(fnName(f))
}

func isWord(a, b types.Type) bool {
	w := func(t types.Type) bool {
		bt, ok := t.Underlying().(*types.Basic)
		return ok && (bt.Kind() == types.Int || bt.Kind() == types.Int64)
	}
	return w(a) && w(b)
}

func isLenOf(n, x *Node) bool {
	n = n.canon()
	return n.Op == OBuiltin && n.Name == "len" && n.Args[0].canon() == x
}

// keysFlag: content of keysUnescaped of the object whose members the slice is, at the start of a block.
func (ir *IR) keysFlag(slice *Node, b *Block) *Node {
	s := slice.canon()
	var l Loc
	switch {
	case s.Op == OLoad:
		l = ir.loc(s.Args[0])
	case s.MemLoc != nil:
		l = *s.MemLoc
	default:
		return nil
	}
	o := ir.P.SSA.Pkg.Scope().Lookup("VObject")
	i := strings.LastIndexByte(l.Path, '.')
	if o == nil || i < 0 {
		return nil
	}
	so := structOf(o.Type())
	for k := 0; k < so.NumFields(); k++ {
		if so.Field(k).Name() == "keysUnescaped" {
			cls := "VObject.keysUnescaped"
			return ir.value(Loc{Root: l.Root, Path: l.Path[:i] + fmt.Sprintf(".%d", k), Class: cls, Typ: so.Field(k).Type(), Exact: true}, ir.verAt(cls, b, 0)).canon()
		}
	}
	return nil
}

// ---- lookups ----

type lookState struct {
	pend map[*Cover]bool // an element is at hand that has not been compared or entered
	done map[*Cover]bool // the loop has ended after its last element
	skip map[*Cover]bool // an element was passed over
	same map[*Node]bool  // comparisons whose last outcome was: equal
}

func (s *lookState) Key() string {
	var l []string
	for n := range s.pend {
		l = append(l, fmt.Sprintf("p%d", n.If.ID))
	}
	for n := range s.done {
		l = append(l, fmt.Sprintf("d%d", n.If.ID))
	}
	for n := range s.skip {
		l = append(l, fmt.Sprintf("s%d", n.If.ID))
	}
	for n := range s.same {
		l = append(l, fmt.Sprintf("e%d", n.ID))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (s *lookState) Clone() CState {
	n := &lookState{map[*Cover]bool{}, map[*Cover]bool{}, map[*Cover]bool{}, map[*Node]bool{}}
	for k := range s.same {
		n.same[k] = true
	}
	for k := range s.pend {
		n.pend[k] = true
	}
	for k := range s.done {
		n.done[k] = true
	}
	for k := range s.skip {
		n.skip[k] = true
	}
	return n
}

func (lc *lookupChk) lookup(f *ssa.Function, ir *IR) {
	p, r := lc.p, lc.r
	recv, addr := ir.Params[0], ir.Params[1]
	path := isStrings(addr.Typ)
	byKey := isString(addr.Typ)
	covers := ir.covers()
	fl := &Flow{IR: ir, Max: 64, Init: &lookState{map[*Cover]bool{}, map[*Cover]bool{}, map[*Cover]bool{}, map[*Node]bool{}}}
	fl.prepare()
	dts := map[*Node]*Node{}
	var all []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			all = append(all, n)
			fl.Keep(n)
			if n.Op == OReturn && tname(recv.Typ) == "*DxValue" {
				dts[n] = ir.fieldValue(recv, "DataType", b, n.Idx)
				fl.Keep(dts[n])
			}
		}
	}
	isKeyOf := func(st *FState, n *Node, cv *Cover) bool {
		s, i, fld := ir.elemLoc(n)
		if s == nil || fld != "K" {
			return false
		}
		if cv == nil {
			return true
		}
		return s == cv.Slice && (cv.Idx == nil || i == cv.Idx || st != nil && st.res(i) == st.res(cv.Idx))
	}
	// comparisons of a key with the name
	type cmp struct {
		n    *Node // the outcome
		key  *Node
		fold bool
	}
	isName := func(n *Node) bool { return n.canon() == addr }
	var cmps []cmp
	for _, n := range all {
		switch {
		case n.Op == OBin && (n.Tok == token.EQL || n.Tok == token.NEQ):
			a, b := n.Args[0], n.Args[1]
			if isName(a) {
				a, b = b, a
			}
			if isName(b) && isKeyOf(nil, a, nil) {
				cmps = append(cmps, cmp{n, a, false})
			}
		case n.Op == OCall && n.Callee != nil && len(n.Args) == 2 && (n.Callee.String() == "strings.EqualFold" || comparesWith(n.Callee, 0) == 1):
			a, b := n.Args[0], n.Args[1]
			if isName(a) {
				a, b = b, a
			}
			if isName(b) && isKeyOf(nil, a, nil) {
				cmps = append(cmps, cmp{n, a, true})
			}
		}
	}
	outcome := func(st *FState, c cmp) (eq, known bool) {
		v, ok := st.decide(c.n, 0)
		if !ok {
			return false, false
		}
		if c.n.Op == OBin && c.n.Tok == token.NEQ {
			v = !v
		}
		return v, true
	}
	ignoreCase := func(st *FState) (bool, bool) {
		for _, n := range all {
			m := n.canon()
			if m.Op == OInit && m.Name == "global IgnoreCase" || m.Op == OLoad && m.Args[0].Op == OGlobal && m.Args[0].Name == "IgnoreCase" {
				if v, ok := st.decide(m, 0); ok {
					return v, true
				}
			}
		}
		return false, false
	}
	// loops that compare but are not understood
	unknown := false
	for _, l := range ir.Loops {
		has := false
		for _, c := range cmps {
			if l.Blocks[c.n.Blk] {
				has = true
			}
		}
		known := false
		for _, cv := range covers {
			if cv.Loop == l {
				known = true
			}
		}
		if has && !known {
			unknown = true
		}
	}
	constElem := false // some element of the path is dealt with on its own
	pathElem := func(n *Node) (idx *Node, ok bool) {
		s, i, _ := ir.elemLoc(n)
		if s != nil && s == addr {
			return i, true
		}
		return nil, false
	}
	for _, n := range all {
		if n.Op == OCall && n.Callee != nil && lc.lookups[n.Callee] != "" && len(n.Args) > 1 {
			if i, ok := pathElem(n.Args[1]); ok && i.Op == OConst {
				constElem = true
			}
			if a := n.Args[1].canon(); a.Op == OSlice {
				constElem = true
			}
		}
	}
	kus := map[*Cover]*Node{}
	for _, cv := range covers {
		if cv.Slice == nil {
			continue
		}
		if cl, _ := ir.sliceField(cv.Slice); cl == "VObject.strkvs" {
			if ku := ir.keysFlag(cv.Slice, cv.Loop.Header); ku != nil {
				kus[cv] = ku
				fl.Keep(ku)
			}
		}
	}
	bad := map[string]bool{}
	fail := func(n *Node, msg string, a ...interface{}) {
		s := fmt.Sprintf(msg, a...)
		if bad[s] || fl.unsure() {
			return
		}
		bad[s] = true
		pos := n.Pos
		if !pos.IsValid() {
			pos = f.Pos()
		}
		r.bad(p, "lookup", pos, fnName(f), "%s", s)
	}
	coverOf := func(c *Cover) (kind string) {
		if c.Slice == nil {
			return ""
		}
		if c.Slice == addr && path {
			return "path"
		}
		if cl, _ := ir.sliceField(c.Slice); cl != "" {
			return cl
		}
		return ""
	}
	fl.Edge = func(st *FState, iff *Node) {
		ls := st.C.(*lookState)
		for _, cv := range covers {
			if cv.If != iff || coverOf(cv) == "" {
				continue
			}
			v, ok := st.decide(iff.Args[0], 0)
			if !ok {
				continue
			}
			if v == cv.In {
				if ls.pend[cv] {
					ls.skip[cv] = true
				}
				ls.pend[cv] = true
				delete(ls.done, cv)
			} else {
				if ls.pend[cv] {
					ls.skip[cv] = true
				}
				delete(ls.pend, cv)
				if ku := kus[cv]; ku != nil {
					if u, known := st.decide(ku, 0); known && !u {
						continue // keys as they were read: another spelling of the name would not be found
					}
				}
				ls.done[cv] = true
			}
		}
	}
	// at the end of an iteration: has the element at hand been compared and found different?
	settle := func(st *FState) {
		ls := st.C.(*lookState)
		for _, c := range cmps {
			if eq, known := outcome(st, c); known && eq {
				if c.fold && comparesFold(c.n) {
					if ic, known := ignoreCase(st); !known || !ic {
						continue
					}
				}
				ls.same[c.n] = true
			}
		}
		for cv := range ls.pend {
			ne, fold := false, false
			for _, c := range cmps {
				if cv.Loop.Blocks[c.n.Blk] && isKeyOf(st, c.key, cv) {
					if eq, known := outcome(st, c); known && !eq {
						ne = true
						if c.fold {
							fold = true
						}
					}
				}
			}
			if !ne {
				continue
			}
			if ic, known := ignoreCase(st); known && ic && !fold {
				continue
			}
			delete(ls.pend, cv)
		}
	}
	oldEdge := fl.Edge
	fl.Edge = func(st *FState, iff *Node) {
		settle(st)
		oldEdge(st, iff)
	}
	fl.Step = func(st *FState, n *Node) bool {
		ls := st.C.(*lookState)
		delete(ls.same, n)
		if n.Op == OReturn {
			settle(st)
		}
		if n.Op == OCall && n.Callee != nil && lc.lookups[n.Callee] != "" && len(n.Args) > 1 {
			if i, ok := pathElem(st.res(n.Args[1])); ok {
				for cv := range ls.pend {
					if coverOf(cv) == "path" && (cv.Idx == nil || i == cv.Idx || st.res(i) == st.res(cv.Idx)) {
						delete(ls.pend, cv)
					}
				}
			}
		}
		if n.Op != OReturn {
			return true
		}
		v := st.res(n.Args[0])
		index := lc.lookups[f] == "index"
		nothing := !index && v.Op == OConst && v.IsNil
		if index {
			if c, ok := st.val(v).exact(); ok && c < 0 {
				nothing = true
			}
		}
		if !index && !nothing && st.nilState(v) == 1 {
			return true // what a lookup gave
		}
		if nothing {
			if why := lc.justified(f, ir, st, n, dts[n], covers, coverOf, unknown, all, recv, addr); why != "" {
				fail(n, "%s", why)
			}
			return true
		}
		// an element
		s, i, fld := (*Node)(nil), (*Node)(nil), ""
		if index {
			if v.Op != OCall && v.Op != OConst && v.Op != OParam {
				i = v
				for _, c := range cmps {
					if s2, _, _ := ir.elemLoc(c.key); s2 != nil {
						s = s2
					}
				}
				fld = "V"
			}
		} else {
			s, i, fld = ir.elemLoc(v)
		}
		if i != nil && s != nil {
			cl, _ := ir.sliceField(s)
			if cl == "" {
				return true
			}
			if fld != "V" && cl == "VObject.strkvs" {
				return true
			}
			i0, k := linOf(st, i)
			switch {
			case i0 == addr:
				if k != 0 {
					fail(n, "the member at another index than the requested one is returned")
				}
			case isIntType(addr.Typ) && i0.Op == OBin && usesParam(i0, addr, 0):
				fail(n, "the member at an index computed from the requested one is returned")
			case byKey && cl == "VObject.strkvs":
				if i0.Op == OCall && i0.Callee != nil && lc.lookups[i0.Callee] == "index" {
					if k != 0 {
						fail(n, "the member next to the one found is returned")
					}
					return true
				}
				if len(cmps) == 0 || unknown {
					return true
				}
				match := false
				var other bool
				for _, c := range cmps {
					_, ci, _ := ir.elemLoc(c.key)
					if !ls.same[c.n] {
						continue
					}
					if st.res(ci) != st.res(i) && ci.canon() != i.canon() {
						if a, ak := linOf(st, ci); a == i0 && ak != k {
							other = true
							continue
						}
					}
					match = true
				}
				if !match {
					if other {
						fail(n, "the member returned is not the one whose key was compared")
					} else {
						fail(n, "a member is returned although its key is not known to be the requested one")
					}
				}
			case byKey && cl == "DxValue.farr":
				if i0.Op == OCall && k != 0 {
					fail(n, "the element at another index than the requested one is returned")
				}
			}
			return true
		}
		if path {
			for _, cv := range covers {
				if coverOf(cv) != "path" || constElem {
					continue
				}
				if v == recv && !ls.skip[cv] {
					continue
				}
				if ls.pend[cv] || !ls.done[cv] && cv.Loop.Header.dominates(n.Blk) {
					if v.Op == OCall && len(v.Args) > 1 {
						if a := v.Args[1].canon(); isStrings(a.Typ) {
							continue
						}
					}
					fail(n, "a value is returned before the last element of the path has been followed")
				} else if ls.skip[cv] {
					fail(n, "an element of the path is passed over")
				} else if !cv.Full {
					fail(cv.If, "the loop over the path %s", cv.Why)
				}
			}
		}
		return true
	}
	fl.run()
	if fl.Too {
		r.Counts["too_large"]++
		return
	}
	r.count("lookups")
	r.sample(fnName(f))
}

func comparesFold(n *Node) bool { return n.Callee != nil && n.Callee.String() == "strings.EqualFold" }

// justified: why giving nothing is not right here ("" when it is).
func (lc *lookupChk) justified(f *ssa.Function, ir *IR, st *FState, n, dt *Node, covers []*Cover, coverOf func(*Cover) string, unknown bool, all []*Node, recv, addr *Node) string {
	p := lc.p
	ls := st.C.(*lookState)
	if st.nilState(recv) == 1 {
		return ""
	}
	cont := p.vtMask("VT_Object", "VT_Array")
	mask := cont
	if dt != nil {
		m, ok := st.val(dt).asMask()
		if !ok {
			m = rangeMask(st.val(dt))
		}
		if m&cont == 0 {
			return ""
		}
		mask = m & cont
	}
	isLenOfContainer := func(x *Node) bool {
		x = x.canon()
		if x.Op != OBuiltin || x.Name != "len" {
			return false
		}
		cl, _ := ir.sliceField(x.Args[0])
		return cl != ""
	}
	var idxs []*Node
	if isIntType(addr.Typ) {
		idxs = append(idxs, addr)
	}
	for _, x := range all {
		x = x.canon()
		if x.Op == OCall && x.Callee != nil {
			switch lc.lookups[x.Callee] {
			case "item":
				if st.nilState(x) == 1 {
					return ""
				}
				continue
			case "index":
				if st.val(x).hi < 0 {
					return ""
				}
				continue
			}
			if x.Callee.Pkg != nil && (x.Callee.Pkg.Pkg.Path() == "strings" || x.Callee.Pkg.Pkg.Path() == "bytes") {
				continue // says something about the spelling of the name, not about an index
			}
			uses := false
			for _, a := range x.Args {
				if a.canon() == addr {
					uses = true
				}
			}
			if uses && isIntType(x.Typ) {
				idxs = append(idxs, x)
			}
			if uses && x.Typ != nil {
				if _, tup := x.Typ.(*types.Tuple); tup {
					idxs = append(idxs, ir.extracts[x][0])
				}
			}
		}
		if x.Op == OExtract && isErrorType(x.Typ) && st.nilState(x) == -1 {
			return ""
		}
		if x.Op == OExtract && isIntType(x.Typ) {
			idxs = append(idxs, x)
		}
		if isLenOfContainer(x) && st.val(x).hi == 0 {
			return ""
		}
	}
	near := ""
	for _, x := range idxs {
		if x == nil {
			continue
		}
		for _, y := range all {
			y = y.canon()
			if !isIntType(y.Typ) {
				continue
			}
			if b, k := linOf(st, y); b == x.canon() && st.val(y).hi < k && st.val(y).hi != inf {
				// y = x + k < k
				return ""
			}
		}
		if st.val(x).hi < 0 {
			return ""
		}
		if lo, _ := st.diffBounds(x, isLenOfContainer); lo >= 0 {
			return ""
		} else if lo != math.MinInt64 {
			near = "the index may still be one of an existing element"
		}
		if st.val(x).hi != inf && near == "" {
			near = "the index may still be one of an existing element"
		}
	}
	searched, any := false, false
	why := ""
	for _, cv := range covers {
		if coverOf(cv) != "VObject.strkvs" {
			continue
		}
		any = true
		switch {
		case ls.done[cv] && cv.Full && !ls.skip[cv]:
			searched = true
		case ls.done[cv] && !cv.Full:
			why = "the search at " + p.pos(cv.If.Pos) + " " + cv.Why
		case ls.skip[cv]:
			why = "a member whose key was not found to differ is passed over"
		}
	}
	if searched || unknown {
		return ""
	}
	if mask == p.vtMask("VT_Array") && isString(addr.Typ) && near == "" && len(idxs) == 0 {
		return ""
	}
	if near != "" {
		return "nothing is returned although " + near
	}
	if why != "" {
		return "nothing is returned although " + why
	}
	if any {
		return "nothing is returned before every member has been compared"
	}
	if isStrings(addr.Typ) {
		return "nothing is returned although no lookup on the way failed"
	}
	return "nothing is returned although the value has members and none was looked up"
}

func usesParam(n, q *Node, d int) bool {
	n = n.canon()
	if n == q {
		return true
	}
	if d > 6 || n.Op != OBin && n.Op != OConvert && n.Op != OUn {
		return false
	}
	for _, a := range n.Args {
		if usesParam(a, q, d+1) {
			return true
		}
	}
	return false
}
