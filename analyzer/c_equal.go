package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: two values compare equal only after their whole content has been compared, and different only because of a
// difference.

func init() {
	register("C12", (*Check).equality)
}

// content: what of a value a node is: "String", "Int", "payload", "fbinary", "len strkvs", ... and of which one.
type content struct {
	what string
	of   *Node
	elem *Node // the element's index, for contents of elements
}

func (ir *IR) contentOf(n *Node, owners map[*Node]bool) (content, bool) {
	n = rawNode(n)
	for n.Op == OConvert || n.Op == OChangeType {
		// text and bytes of the same content; numbers keep their own kind
		a := n.Args[0]
		if isIntType(n.Typ) || isFloatType(n.Typ) {
			break
		}
		n = rawNode(a)
	}
	field := func(l Loc) (content, bool) {
		r := l.Root.canon()
		if owners[r] && strings.HasPrefix(l.Class, "DxValue.") {
			f := strings.TrimPrefix(l.Class, "DxValue.")
			if f == "simpleV" {
				if i := strings.IndexByte(l.Path, '#'); i >= 0 {
					return content{what: "payload " + l.Path[i+1:], of: r}, true
				}
				return content{what: "payload", of: r}, true
			}
			return content{what: f, of: r}, true
		}
		if s, i, f := ir.elemOfLoc(l); s != nil {
			if cl, o := ir.sliceField(s); cl != "" && owners[o] {
				w := "element"
				if f != "" {
					w = "member " + f
				}
				return content{what: w, of: o, elem: i}, true
			}
		}
		return content{}, false
	}
	switch n.Op {
	case OLoad:
		return field(ir.loc(n.Args[0]))
	case OCall:
		if n.Callee != nil && len(n.Args) == 1 && owners[n.Args[0].canon()] {
			return content{what: n.Callee.Name(), of: n.Args[0].canon()}, true
		}
		if n.Callee != nil && len(n.Args) == 1 && !ir.P.internal(n.Callee) && (isByteSlice(n.Typ) || isString(n.Typ)) {
			return ir.contentOf(n.Args[0], owners) // FastString2Byte and the like
		}
	case OBuiltin:
		if n.Name == "len" {
			c, ok := ir.contentOf(n.Args[0], owners)
			if !ok {
				if cl, o := ir.sliceField(n.Args[0]); cl != "" && owners[o] {
					return content{what: "len " + cl[strings.IndexByte(cl, '.')+1:], of: o}, true
				}
			}
			c.what = "len " + c.what
			return c, ok
		}
	case OSlice:
		if !n.Lo && !n.Hi {
			l := ir.loc(n.Args[0])
			if owners[l.Root.canon()] && l.Class == "DxValue.simpleV" {
				return content{what: "payload", of: l.Root.canon()}, true
			}
			return ir.contentOf(n.Args[0], owners)
		}
	}
	if n.MemLoc != nil {
		return field(*n.MemLoc)
	}
	return content{}, false
}

type eqTest struct {
	n    *Node // bool or int outcome
	zero bool  // equal when the outcome is zero (Compare)
	neg  bool
	what string
	elem *Node
	a, b *Node
}

type eqState struct {
	known map[string]bool // contents known equal (true) or different (false)
	pend  map[*Cover]bool
	skip  map[*Cover]bool
	done  map[*Cover]bool
	other bool // something not understood was found out about the two
}

func newEqState() *eqState {
	return &eqState{map[string]bool{}, map[*Cover]bool{}, map[*Cover]bool{}, map[*Cover]bool{}, false}
}

func (s *eqState) Key() string {
	var l []string
	for n, v := range s.known {
		l = append(l, fmt.Sprint(n, v))
	}
	for n := range s.pend {
		l = append(l, fmt.Sprintf("p%d", n.If.ID))
	}
	for n := range s.done {
		l = append(l, fmt.Sprintf("d%d", n.If.ID))
	}
	for n := range s.skip {
		l = append(l, fmt.Sprintf("s%d", n.If.ID))
	}
	sort.Strings(l)
	return strings.Join(l, ",") + fmt.Sprint(s.other)
}

func (s *eqState) Clone() CState {
	n := newEqState()
	for k, v := range s.known {
		n.known[k] = v
	}
	for k := range s.pend {
		n.pend[k] = true
	}
	for k := range s.done {
		n.done[k] = true
	}
	for k := range s.skip {
		n.skip[k] = true
	}
	n.other = s.other
	return n
}

func (c *Check) equality() *Result {
	r := newResult()
	r.Min = 1
	r.Rules = []string{
		"on every path that returns true, for every type the values may have there, that type's content (number, text, bytes, both lengths, every key, every element) is known to be equal",
		"on every path that returns false, something that counts was found to differ: the kind of value, a length, a key, an element, the bytes, the unescaped text or the number",
		"text counts as different only after unescaping; integers are compared as integers when both are",
	}
	r.Assumptions = []string{"String, Int, Double and Float are the accessors whose own correctness C18 and C20 state", "an integer and a floating point number are compared as doubles"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	for _, f := range p.Funcs {
		sg := f.Signature
		if !recvIs(f, "*DxValue") || f.Synthetic != "" || !f.Object().Exported() || sg.Params().Len() != 1 || sg.Results().Len() != 1 ||
			tname(sg.Params().At(0).Type()) != "*DxValue" || !isBoolType(sg.Results().At(0).Type()) {
			continue
		}
		mid := inlineUpTo(400)
		ir := p.buildIR(f, func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
			if g.Signature.Recv() != nil && len(g.Params) == 1 && recvIs(g, "*DxValue", "*VObject") {
				return false
			}
			return mid(ir, g, depth, stack)
		})
		p.alias()
		ir.promote()
		r.Functions[fnName(f)] = true
		p.equalFn(r, f, ir)
	}
	return r
}

func (p *Program) equalFn(r *Result, f *ssa.Function, ir *IR) {
	v, w := ir.Params[0], ir.Params[1]
	owners := map[*Node]bool{v: true, w: true}
	both := func(a, b content) bool { return a.of != b.of && a.what == b.what }
	vt := p.valueTypes()
	mask := func(names ...string) uint64 { return p.vtMask(names...) }
	all := uint64(0)
	for _, x := range vt {
		all |= 1 << uint(x)
	}
	strs, nums := mask("VT_String", "VT_RawString"), mask("VT_Int", "VT_Float", "VT_Double")
	dtT := p.dxFieldType("DataType")
	dtl := func(x *Node) *Node {
		return ir.value(Loc{Root: x, Path: fmt.Sprintf(".%d", p.dxField("DataType")), Class: "DxValue.DataType", Typ: dtT, Exact: true}, version{}).canon()
	}
	dv, dw := dtl(v), dtl(w)
	covers := ir.covers()
	kind := map[*Cover]string{} // strkvs or farr
	for _, cv := range covers {
		if cv.Slice != nil {
			if cl, o := ir.sliceField(cv.Slice); cl != "" && owners[o] {
				kind[cv] = cl[strings.IndexByte(cl, '.')+1:]
			}
		}
	}
	fl := &Flow{IR: ir, Max: 200, Init: newEqState(), Limit: 200000}
	fl.prepare()
	var tests []eqTest
	var odd []*Node // other outcomes that depend on both values
	dep := map[*Node]int{}
	var deps func(n *Node, d int) int
	deps = func(n *Node, d int) int {
		n = n.canon()
		if m, ok := dep[n]; ok {
			return m
		}
		if n == v {
			return 1
		}
		if n == w {
			return 2
		}
		if d > 30 {
			return 3
		}
		dep[n] = 0
		m := 0
		for _, a := range n.Args {
			m |= deps(a, d+1)
		}
		if n.MemLoc != nil {
			m |= deps(n.MemLoc.Root, d+1)
		}
		dep[n] = m
		return m
	}
	isDT := func(n *Node) bool { return n.Typ != nil && tname(n.Typ) == "ValueType" }
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			fl.Keep(n)
			if n.canon() != n && n.Op != OLoad {
				continue
			}
			switch {
			case n.Op == OBin && (n.Tok == token.EQL || n.Tok == token.NEQ):
				a, ok1 := ir.contentOf(n.Args[0], owners)
				b2, ok2 := ir.contentOf(n.Args[1], owners)
				if ok1 && ok2 && both(a, b2) {
					tests = append(tests, eqTest{n: n, neg: n.Tok == token.NEQ, what: a.what, elem: a.elem, a: n.Args[0], b: n.Args[1]})
					continue
				}
				if isDT(n.Args[0]) || deps(n, 0) != 3 || n.Args[0].canon() == v || n.Args[0].canon() == w {
					continue
				}
				if x := n.Args[0].canon(); x.Op == OCall && isZeroConst(n.Args[1]) {
					continue // Compare(..) == 0
				}
				odd = append(odd, n)
			case n.Op == OCall && n.Callee != nil && len(n.Args) == 2:
				a, ok1 := ir.contentOf(n.Args[0], owners)
				b2, ok2 := ir.contentOf(n.Args[1], owners)
				name := n.Callee.String()
				switch {
				case n.Callee == f && ok1 && ok2 && both(a, b2):
					tests = append(tests, eqTest{n: n, what: a.what, elem: a.elem, a: n.Args[0], b: n.Args[1]})
				case (name == "bytes.Compare" || name == "strings.Compare") && ok1 && ok2 && both(a, b2):
					tests = append(tests, eqTest{n: n, zero: true, what: a.what, elem: a.elem, a: n.Args[0], b: n.Args[1]})
				case name == "bytes.Equal" && ok1 && ok2 && both(a, b2):
					tests = append(tests, eqTest{n: n, what: a.what, elem: a.elem, a: n.Args[0], b: n.Args[1]})
				case strings.HasSuffix(name, ".EqualFold") || strings.HasSuffix(name, ".HasPrefix") || strings.HasSuffix(name, ".HasSuffix") || strings.HasSuffix(name, ".Contains"):
					// does not settle equality
				case deps(n, 0) == 3 && (isBoolNode(n) || isIntType(n.Typ)):
					odd = append(odd, n)
				}
			case n.Op == OCall && deps(n, 0) == 3 && (isBoolNode(n) || isIntType(n.Typ)):
				odd = append(odd, n)
			}
		}
	}
	fl.Keep(dv, dw)
	for _, t := range tests {
		fl.Keep(t.n)
	}
	outcome := func(st *FState, t eqTest) (eq, known bool) {
		if t.zero {
			x := st.val(t.n)
			if c, ok := x.exact(); ok {
				return c == 0, true
			}
			if x.lo > 0 || x.hi < 0 {
				return false, true
			}
			for k, b := range st.fact {
				if k.op == token.EQL && k.b != nil && (k.a == t.n.canon() && isZeroConst(k.b) || k.b == t.n.canon() && isZeroConst(k.a)) {
					return b, true
				}
			}
			return false, false
		}
		x, ok := st.decide(t.n, 0)
		return x != t.neg, ok
	}
	same := func(st *FState, i *Node, cv *Cover) bool {
		return i != nil && (cv.Idx == nil || i.canon() == cv.Idx || st.res(i) == st.res(cv.Idx))
	}
	settle := func(st *FState) {
		es := st.C.(*eqState)
		var eqs []eqTest
		for _, t := range tests {
			eq, known := outcome(st, t)
			if !known {
				continue
			}
			if t.elem == nil {
				es.known[t.what] = eq
			} else if !eq {
				// a member compared with the one at the same place
				_, i, _ := ir.elemLoc(t.a)
				_, j, _ := ir.elemLoc(t.b)
				if i != nil && j != nil && (i.canon() == j.canon() || st.res(i) == st.res(j)) {
					es.known[t.what] = false
				} else {
					es.other = true
				}
			} else {
				eqs = append(eqs, t)
			}
		}
		for _, n := range odd {
			if _, known := st.decide(n, 0); known {
				es.other = true
			} else if isIntType(n.Typ) {
				if a := st.val(n); a.lo > 0 || a.hi < 0 || a.lo == a.hi {
					es.other = true
				}
			}
		}
		for cv := range es.pend {
			need := []string{"element"}
			if kind[cv] == "strkvs" {
				need = []string{"member K", "member V"}
			}
			ok := 0
			for _, what := range need {
				for _, t := range eqs {
					if t.what != what || !cv.Loop.Blocks[t.n.Blk] {
						continue
					}
					_, i, _ := ir.elemLoc(t.a)
					_, j, _ := ir.elemLoc(t.b)
					if same(st, i, cv) && same(st, j, cv) {
						ok++
						break
					}
				}
			}
			if ok == len(need) {
				delete(es.pend, cv)
			}
		}
	}
	fl.Forked = settle
	fl.Edge = func(st *FState, iff *Node) {
		es := st.C.(*eqState)
		settle(st)
		for _, cv := range covers {
			if cv.If != iff || kind[cv] == "" {
				continue
			}
			x, ok := st.decide(iff.Args[0], 0)
			if !ok {
				continue
			}
			if es.pend[cv] {
				es.skip[cv] = true
			}
			if x == cv.In {
				es.pend[cv] = true
				delete(es.done, cv)
			} else {
				delete(es.pend, cv)
				es.done[cv] = true
			}
		}
	}
	bad := map[string]bool{}
	fail := func(n *Node, msg string, a ...interface{}) {
		s := fmt.Sprintf(msg, a...)
		if bad[s] || fl.unsure() {
			return
		}
		bad[s] = true
		pos := n.Pos
		if !pos.IsValid() {
			pos = f.Pos()
		}
		r.bad(p, "equality", pos, fnName(f), "%s", s)
	}
	masks := func(st *FState) (uint64, uint64) {
		g := func(d *Node) uint64 {
			m, ok := st.val(d).asMask()
			if !ok {
				m = rangeMask(st.val(d))
			}
			return m & all
		}
		return g(dv), g(dw)
	}
	// walk: enough loops not understood
	loopsOdd := false
	for _, l := range ir.Loops {
		known := false
		for _, cv := range covers {
			if cv.Loop == l {
				known = true
			}
		}
		if !known {
			loopsOdd = true
		}
	}
	retTrue := func(st *FState, n *Node) {
		es := st.C.(*eqState)
		if es.other || loopsOdd {
			return
		}
		nv, nw := st.nilState(v), st.nilState(w)
		if b, ok := st.fact[eqKey(v, w)]; ok && b {
			return
		}
		if nv == 1 && nw == 1 {
			return
		}
		if nv == 1 && nw == -1 || nv == -1 && nw == 1 {
			fail(n, "true is returned for a nil value and one that is not")
			return
		}
		r.count("true_paths")
		mv, mw := masks(st)
		eqT, known := st.fact[eqKey(dv, dw)]
		sameT := known && eqT || mv == mw && bits.OnesCount64(mv) == 1
		if sameT {
			for name, t := range vt {
				b := uint64(1) << uint(t)
				if mv&mw&b == 0 {
					continue
				}
				ok, what := false, ""
				k := func(ws ...string) bool {
					for _, x := range ws {
						if es.known[x] {
							return true
						}
					}
					return false
				}
				container := func(fld string) (bool, string) {
					if !k("len " + fld) {
						return false, "the two lengths"
					}
					for cv := range es.done {
						if kind[cv] == fld {
							if !cv.Full {
								return false, "every element (the loop " + cv.Why + ")"
							}
							if !es.skip[cv] {
								return true, ""
							}
						}
					}
					return false, "every element"
				}
				switch name {
				case "VT_String", "VT_RawString":
					ok, what = k("String", "fstrvalue"), "the text"
				case "VT_Int":
					ok, what = k("payload", "payload int64", "payload uint64", "Int"), "the integer"
				case "VT_Float":
					ok, what = k("payload", "payload int64", "payload uint64", "payload float32", "Float", "Double"), "the number"
				case "VT_Double":
					ok, what = k("payload", "payload int64", "payload uint64", "payload float64", "Double"), "the number"
				case "VT_DateTime":
					ok, what = k("payload", "payload int64", "payload uint64", "payload float64", "Double", "DateTime", "GoTime"), "the time"
				case "VT_Binary", "VT_ExBinary":
					ok, what = k("fbinary"), "the bytes"
				case "VT_Object":
					ok, what = container("strkvs")
				case "VT_Array":
					ok, what = container("farr")
				default:
					ok = true
				}
				if !ok {
					fail(n, "true is returned for two values of type %s although %s may differ: that was not compared on this path", name, what)
				}
			}
			return
		}
		// different or unrelated types
		for n1, t1 := range vt {
			for n2, t2 := range vt {
				b1, b2 := uint64(1)<<uint(t1), uint64(1)<<uint(t2)
				if t1 == t2 || mv&b1 == 0 || mw&b2 == 0 {
					continue
				}
				switch {
				case b1&strs != 0 && b2&strs != 0:
					if !es.known["String"] {
						fail(n, "true is returned for two texts, one of them not unescaped yet, that were not compared")
					}
				case b1&nums != 0 && b2&nums != 0:
					if !es.known["Double"] {
						fail(n, "true is returned for two numbers of different types that were not compared as doubles")
					}
				default:
					a, b := n1, n2
					if a > b {
						a, b = b, a
					}
					fail(n, "true is returned although one value may be of type %s and the other one of type %s", a, b)
					return
				}
			}
		}
	}
	retFalse := func(st *FState, n *Node) {
		es := st.C.(*eqState)
		if es.other {
			return
		}
		nv, nw := st.nilState(v), st.nilState(w)
		if nv == 1 && nw == -1 || nv == -1 && nw == 1 {
			return
		}
		if nv == 1 && nw == 1 {
			fail(n, "false is returned for two nil values")
			return
		}
		if nv == 1 || nw == 1 {
			return
		}
		r.count("false_paths")
		mv, mw := masks(st)
		eqT, known := st.fact[eqKey(dv, dw)]
		ne := func(ws ...string) bool {
			for _, x := range ws {
				if b, ok := es.known[x]; ok && !b {
					return true
				}
			}
			return false
		}
		if ne("len strkvs", "len farr", "member K", "member V", "element", "fbinary", "len fbinary", "String", "Int", "Double", "Float", "payload int64", "payload uint64", "payload float64", "payload float32", "DateTime", "GoTime") {
			// a number seen as an integer differs only if both are
			return
		}
		typesDiffer := known && !eqT || mv&mw == 0
		if ne("payload") && (known && eqT || bits.OnesCount64(mv) == 1 && mv == mw) {
			return
		}
		if ne("fstrvalue", "len fstrvalue") {
			if (mv|mw)&mask("VT_RawString") == 0 {
				return
			}
			fail(n, "false is returned for texts that differ only as they are spelled, not unescaped")
			return
		}
		if !typesDiffer {
			if es.known["DataType"] == false && ne("DataType") {
				typesDiffer = true
			}
		}
		if !typesDiffer {
			fail(n, "false is returned although no difference was found on this path")
			return
		}
		for _, t1 := range vt {
			for _, t2 := range vt {
				b1, b2 := uint64(1)<<uint(t1), uint64(1)<<uint(t2)
				if t1 == t2 || mv&b1 == 0 || mw&b2 == 0 {
					continue
				}
				if b1&strs != 0 && b2&strs != 0 {
					fail(n, "false is returned for two texts only because one of them is not unescaped yet")
					return
				}
				if b1&nums != 0 && b2&nums != 0 {
					fail(n, "false is returned for two numbers only because they are stored in different types")
					return
				}
			}
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		if n.Op != OReturn {
			return true
		}
		if os.Getenv("DXDEBUG") != "" {
			es := st.C.(*eqState)
			mv, mw := masks(st)
			fmt.Println("RET", p.pos(n.Pos), n.dump(), es.Key(), p.maskNames(mv), p.maskNames(mw))
		}
		for _, want := range []bool{true, false} {
			s := st.clone()
			if !s.refine(n.Args[0], want, 0) {
				continue
			}
			settle(s)
			if want {
				retTrue(s, n)
			} else {
				retFalse(s, n)
			}
		}
		return true
	}
	fl.run()
	if fl.Too {
		r.Counts["too_large"]++
		return
	}
	r.count("comparators")
	r.sample(fmt.Sprintf("%s: %d comparisons", fnName(f), len(tests)))
	_ = types.Typ
}
