package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: a merge takes every member and element into account, and the callback is told the truth.

func init() {
	register("C21", (*Check).merges)
}

type mergeState struct {
	k, v, added bool // key and a copy of the member at hand went somewhere; both
	replaced    bool // the target's member was replaced by a copy
	merged      bool // the two were merged
	oldM, newM  bool // copies of both went into something new
	slot        bool // something else is now the target's member
	handed      bool // the whole was handed to another merging function
	coll        bool // copies were collected that are not in the target yet
	eq          bool // the target has an equal element
	called      *Node
	pend        map[*Cover]bool
	skip        map[*Cover]bool
	done        map[*Cover]bool
	atEnd       func(st *FState, cv *Cover)
}

func (s *mergeState) Key() string {
	var l []string
	for n := range s.pend {
		l = append(l, fmt.Sprintf("p%d", n.If.ID))
	}
	for n := range s.done {
		l = append(l, fmt.Sprintf("d%d", n.If.ID))
	}
	for n := range s.skip {
		l = append(l, fmt.Sprintf("k%d", n.If.ID))
	}
	sort.Strings(l)
	c := 0
	if s.called != nil {
		c = s.called.ID
	}
	return strings.Join(l, ",") + fmt.Sprint(s.k, s.v, s.added, s.replaced, s.merged, s.oldM, s.newM, s.slot, s.eq, s.coll, s.handed, c)
}

func (s *mergeState) Clone() CState {
	n := *s
	cp := func(m map[*Cover]bool) map[*Cover]bool {
		o := map[*Cover]bool{}
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	n.pend, n.skip, n.done = cp(s.pend), cp(s.skip), cp(s.done)
	return &n
}

func (s *mergeState) fresh() {
	s.k, s.v, s.added, s.replaced, s.merged, s.oldM, s.newM, s.slot, s.eq, s.called = false, false, false, false, false, false, false, false, false, nil
}

func (s *mergeState) Prune(keep func(*Node) bool) {}

func (s *mergeState) Reenter(st *FState, gone func(*Node) bool, phis map[*Node]*Node) {
	for cv := range s.pend {
		if gone(cv.If) {
			s.atEnd(st, cv)
			delete(s.pend, cv)
		}
	}
}

func (p *Program) mergePolicy(limit int) InlinePolicy {
	in := p.copyPolicy(limit)
	return func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if p.inCycle[g] && g.Object() != nil && g.Object().Exported() {
			return false
		}
		if recvIs(g, "*VObject", "*DxValue") {
			if _, ok := lookupFn(g); ok {
				return false
			}
			if len(g.Params) == 2 && isValuePtr(g.Params[1].Type()) && g.Signature.Results().Len() == 1 && isBoolType(g.Signature.Results().At(0).Type()) {
				return false // comparison
			}
			if g.Object() != nil && g.Object().Exported() {
				for _, q := range g.Params {
					if isString(q.Type()) || isIntType(q.Type()) {
						return false
					}
				}
			}
			if len(g.Params) == 1 && g.Signature.Results().Len() == 0 {
				return false // unescaping
			}
		}
		return in(ir, g, depth, stack)
	}
}

// lookupFn: finds a member by its name: a place or the member itself.
func lookupFn(g *ssa.Function) (byPtr, ok bool) {
	if !recvIs(g, "*VObject", "*DxValue") || len(g.Params) != 2 || !isString(g.Params[1].Type()) || g.Signature.Results().Len() != 1 {
		return false, false
	}
	t := g.Signature.Results().At(0).Type()
	switch {
	case isValuePtr(t):
		return true, true
	case isIntType(t):
		return false, true
	}
	return false, false
}

func (c *Check) merges() *Result {
	r := newResult()
	r.Min = 1
	r.Rules = []string{
		"every round over the members of the source ends with the member added (known to be missing in the target), or merged, combined, replaced or kept as the callback's answer demands",
		"every round over the elements of the source ends with the element added or known to equal one of the target",
		"the loops visit all members and elements and are not left early",
		"what is taken over is a copy; members that are objects or arrays on both sides are merged with the same callback, never for two types that a merge ignores",
		"the callback is asked about every common member, with its path (the parent's path, a separator when that is not empty, the key), the target's member and the source's",
	}
	r.Assumptions = []string{"the callback does not change the trees", "copies are copies (C11), lookups find (C19), Equal compares (C12)"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	var work []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !seen[f] && p.internal(f) && len(f.Blocks) > 0 {
			seen[f] = true
			work = append(work, f)
		}
	}
	var top *ssa.Function
	for _, f := range p.Funcs {
		if recvIs(f, "*DxValue") && f.Synthetic == "" && f.Name() == "MergeWith" && len(f.Params) == 3 && isValuePtr(f.Params[1].Type()) {
			top = f
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		r.Functions[fnName(f)] = true
		p.mergeFn(r, f, top, add)
	}
	return r
}

func (p *Program) mergeFn(r *Result, f, top *ssa.Function, more func(*ssa.Function)) {
	ir := p.buildIR(f, p.mergePolicy(500))
	p.alias()
	ir.promote()
	isMerge := func(g *ssa.Function) (d, s int, ok bool) {
		if g == nil || g != top && (p.scc[g] != p.scc[top] || !p.inCycle[g]) {
			return
		}
		d, s = -1, -1
		for i, q := range g.Params {
			if isValuePtr(q.Type()) {
				if d < 0 {
					d = i
				} else if s < 0 {
					s = i
				}
			}
		}
		return d, s, s >= 0
	}
	di, si, ok := isMerge(f)
	if !ok {
		return
	}
	dst, src := ir.Params[di].canon(), ir.Params[si].canon()
	var fn, path *Node
	for i, q := range f.Params {
		if _, is := q.Type().Underlying().(*types.Signature); is {
			fn = ir.Params[i].canon()
		}
		if isByteSlice(q.Type()) || isString(q.Type()) {
			path = ir.Params[i].canon()
		}
	}
	if fn == nil {
		return
	}
	so, do := map[*Node]bool{src: true}, map[*Node]bool{dst: true}
	opT := map[string]int64{}
	sc := p.SSA.Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && tname(c.Type()) == "MergeOp" {
			if v, ok := constant.Int64Val(c.Val()); ok {
				opT[n] = v
			}
		}
	}
	covers := ir.covers()
	kind := map[*Cover]string{}
	for _, cv := range covers {
		if cv.Slice != nil {
			if cl, o := ir.sliceField(cv.Slice); cl != "" && o == src {
				kind[cv] = cl[strings.IndexByte(cl, '.')+1:]
			}
		}
	}
	init := &mergeState{pend: map[*Cover]bool{}, skip: map[*Cover]bool{}, done: map[*Cover]bool{}}
	fl := &Flow{IR: ir, Max: 4000, Init: init, Limit: 300000}
	fl.prepare()
	bad := map[string]bool{}
	fail := func(rule string, n *Node, msg string, a ...interface{}) {
		s := fmt.Sprintf(msg, a...)
		if bad[s] || fl.unsure() {
			return
		}
		bad[s] = true
		if os.Getenv("DXDEBUG") != "" {
			fmt.Println("FAIL", s)
		}
		pos := f.Pos()
		fr := fnName(f)
		if n != nil {
			if n.Pos.IsValid() {
				pos = n.Pos
			}
			if n.Frame != nil {
				fr = n.Frame.chain(p)
			}
		}
		r.bad(p, rule, pos, fr, "%s", s)
	}
	from := func(st *FState, n *Node, o map[*Node]bool) (content, bool) {
		if c, ok := ir.contentOf(n, o); ok {
			return c, true
		}
		return ir.contentOf(st.res(n), o)
	}
	same := func(st *FState, i *Node, cv *Cover) bool {
		return i != nil && (cv.Idx == nil || i.canon() == cv.Idx || st.res(i) == st.res(cv.Idx))
	}
	cur := func(st *FState) *Cover {
		for cv := range st.C.(*mergeState).pend {
			return cv
		}
		return nil
	}
	srcPart := func(st *FState, n *Node, what string) (is, here bool) {
		c, ok := from(st, n, so)
		if !ok || c.what != what {
			return false, false
		}
		cv := cur(st)
		return true, cv != nil && same(st, c.elem, cv)
	}
	srcElem := func(st *FState, n *Node) (is, here bool) {
		if is, here = srcPart(st, n, "member V"); !is {
			is, here = srcPart(st, n, "element")
		}
		return
	}
	var lookups []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OCall && n.Callee != nil {
				if _, ok := lookupFn(n.Callee); ok && (objPtr(n.Args[0]) == dst) {
					if c, ok := ir.contentOf(n.Args[1], so); ok && c.what == "member K" {
						lookups = append(lookups, n)
						fl.Keep(n)
					}
				}
			}
		}
	}
	dstElem := func(st *FState, n *Node) bool {
		for _, x := range []*Node{n, n.canon(), st.res(n)} {
			for _, l := range lookups {
				if x == l && isValuePtr(l.Typ) {
					return true
				}
			}
		}
		if c, ok := from(st, n, do); ok && (c.what == "member V" || c.what == "element") {
			return true
		}
		// of a part of the target's slice
		r := rawNode(n)
		if r.Op != OLoad {
			return false
		}
		s, _, _ := ir.elemOfLoc(ir.loc(r.Args[0]))
		for d := 0; s != nil && d < 4; d++ {
			if s = st.res(s); s.Op != OSlice {
				break
			}
			s = s.Args[0]
			if cl, o := ir.sliceField(s); cl != "" && do[o] {
				return true
			}
		}
		return false
	}
	dstHere := func(st *FState, n *Node) bool {
		if !dstElem(st, n) {
			return false
		}
		if c, ok := from(st, n, do); ok && c.elem != nil {
			for _, l := range lookups {
				if c.elem.canon() == l || st.res(c.elem) == l {
					return true
				}
			}
			return false
		}
		return true
	}
	// foundState: 1 the key at hand is in the target, -1 it is not, 0 unknown
	foundState := func(st *FState) int {
		for _, l := range lookups {
			if isValuePtr(l.Typ) {
				if s := st.nilState(l); s != 0 {
					return -s
				}
				continue
			}
			v := st.val(l)
			if v.hi < 0 {
				return -1
			}
			if v.lo >= 0 {
				return 1
			}
			for k, b := range st.fact {
				if k.op == token.EQL && k.b != nil && (k.a == l || k.b == l) {
					o := k.a
					if o == l {
						o = k.b
					}
					if c, ok := st.val(o).exact(); ok && c == -1 {
						if b {
							return -1
						}
						return 1
					}
				}
			}
		}
		return 0
	}
	dtRoot := func(n *Node) *Node {
		n = rawNode(n)
		var l Loc
		switch {
		case n.Op == OLoad:
			l = ir.loc(n.Args[0])
		case n.MemLoc != nil:
			l = *n.MemLoc
		case n.Op == OCall && n.Callee != nil && len(n.Args) == 1 && n.Typ != nil && tname(n.Typ) == "ValueType":
			return n.Args[0]
		default:
			return nil
		}
		if l.Class == "DxValue.DataType" {
			return l.Root
		}
		return nil
	}
	var dts, eqs, lens, elens []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.MemLoc != nil || n.Op == OLoad {
				if n.Op == OLoad && n.Typ != nil && (isValuePtr(n.Typ) || isString(n.Typ)) {
					fl.Keep(n, n.canon())
				}
			}
			if dtRoot(n) != nil {
				fl.Keep(n, n.canon())
				dts = append(dts, n)
			}
			if n.Op == OBuiltin && n.Name == "len" && (isByteSlice(n.Args[0].Typ) || isString(n.Args[0].Typ)) {
				fl.Keep(n, n.canon())
				lens = append(lens, n)
			}
			if n.Op == OBuiltin && n.Name == "len" && ir.ownFresh(n.Args[0], so, do) {
				fl.Keep(n, n.canon())
				elens = append(elens, n)
			}
			if n.Op == OCall && n.Callee != nil && n.Callee.Name() == "Equal" && len(n.Args) == 2 && isValuePtr(n.Args[0].Typ) {
				fl.Keep(n)
				eqs = append(eqs, n)
			}
			if n.Op == OCall && n.Callee == nil && len(n.Args) > 0 && n.Args[0].canon() == fn {
				fl.Keep(n)
			}
			if constGlobal(n.canon()) {
				fl.Keep(n.canon())
			}
		}
	}
	fl.Keep(dst, src, fn)
	if path != nil {
		fl.Keep(path)
	}
	vt := p.valueTypes()
	all := uint64(0)
	for _, x := range vt {
		all |= 1 << uint(x)
	}
	maskOf := func(st *FState, sel func(root *Node) bool) uint64 {
		m := all
		for _, n := range dts {
			if sel(dtRoot(n)) {
				x, ok := st.val(n).asMask()
				if !ok {
					x = rangeMask(st.val(n))
				}
				m &= x
			}
		}
		return m
	}
	opCan := func(st *FState, n *Node, c int64) bool {
		v := st.val(n)
		if c < v.lo || c > v.hi {
			return false
		}
		n = st.res(n)
		for k, b := range st.fact {
			if !b && k.op == token.EQL && k.b != nil && (k.a == n || k.b == n) {
				o := k.a
				if o == n {
					o = k.b
				}
				if x, ok := st.val(o).exact(); ok && x == c {
					return false
				}
			}
		}
		return true
	}
	equalKnown := func(st *FState) bool {
		for _, n := range eqs {
			if x, ok := st.decide(n, 0); ok && x {
				for i := 0; i < 2; i++ {
					if _, here := srcElem(st, n.Args[i]); here && dstElem(st, n.Args[1-i]) {
						return true
					}
				}
			}
		}
		return false
	}
	note := func(st *FState) {
		es := st.C.(*mergeState)
		if !es.eq && len(es.pend) > 0 && equalKnown(st) {
			es.eq = true
		}
	}
	nilElem := func(st *FState, sel func(n *Node) bool) bool {
		for _, b := range ir.Blocks {
			for _, n := range b.Nodes {
				if n.Typ != nil && isValuePtr(n.Typ) && (n.Op == OLoad || n.Op == OCall) && st.nilState(n) == 1 && sel(n) {
					return true
				}
			}
		}
		return false
	}
	typesEq := func(st *FState) bool {
		for k, b := range st.fact {
			if b && k.op == token.EQL && k.b != nil && tname(k.a.Typ) == "ValueType" {
				a, c := dtRoot(k.a), dtRoot(k.b)
				if a == nil || c == nil {
					continue
				}
				_, h1 := srcElem(st, a)
				_, h2 := srcElem(st, c)
				if h1 && dstElem(st, c) || h2 && dstElem(st, a) {
					return true
				}
			}
		}
		return false
	}
	init.atEnd = func(st *FState, cv *Cover) {
		es := st.C.(*mergeState)
		note(st)
		r.count("rounds")
		if os.Getenv("DXDEBUG") != "" {
			fmt.Println("ROUND", fnName(f), p.pos(cv.If.Pos), es.Key(), foundState(st))
			if es.called != nil {
				fmt.Println("   ", st.val(es.called))
				for k, b := range st.fact {
					if k.b != nil {
						fmt.Println("   fact", k.op, k.a.dump(), "|", k.b.dump(), b)
					}
				}
			}
		}
		at := cv.If
		if kind[cv] == "farr" {
			if !es.added && !es.eq && !es.merged && !es.replaced {
				fail("visit-all", at, "a round over the source's elements may end without adding the element, and without one of the target that equals it")
			}
			return
		}
		fs := foundState(st)
		if es.added {
			if fs == 1 {
				fail("visit-all", at, "a member that the target has already is added to it as if it were missing")
			} else if fs == 0 && len(lookups) > 0 && es.called == nil {
				fail("visit-all", at, "a member is added as if it were missing, without it being known that the target does not have it")
			}
			return
		}
		if fs == -1 {
			fail("visit-all", at, "a round over the source's members may end without adding a member that the target does not have")
			return
		}
		if es.called == nil && st.nilState(fn) != 1 {
			if fs == 1 || es.replaced || es.merged || es.slot {
				fail("callback", at, "a member that both have is dealt with without asking the callback, although there may be one")
			} else {
				fail("visit-all", at, "a round over the source's members may end without doing anything about the member")
			}
			return
		}
		can := func(name string) bool {
			if es.called == nil {
				return name == "MO_Normal"
			}
			return opCan(st, es.called, opT[name])
		}
		old := func(n *Node) bool { return dstElem(st, n) }
		new := func(n *Node) bool { _, h := srcElem(st, n); return h }
		comb := es.oldM && es.newM && es.slot
		if can("MO_Replace") && !es.replaced {
			fail("callback-obeyed", at, "a member is not replaced although the callback may have asked for that")
		}
		if can("MO_Normal") {
			mo, mn := maskOf(st, old), maskOf(st, new)
			on := nilElem(st, old) || nilElem(st, new)
			obj, arr := p.vtMask("VT_Object"), p.vtMask("VT_Array")
			switch {
			case es.merged:
				if mo&mn&(obj|arr) != 0 && (mo|mn)&^(obj|arr) == 0 && (mo == mn && (mo == obj || mo == arr) || typesEq(st)) {
					break
				}
				if !on {
					fail("visit-all", at, "two members are handed to a merge that ignores them unless they are both objects or both arrays, which they may not be here")
				}
			case comb:
				if !on && (mo&mn&obj != 0 || mo&mn&arr != 0) && !typesNeq(st, dtRoot, old, new) {
					fail("visit-all", at, "two members that may both be objects, or both arrays, become an array of two instead of being merged")
				}
			case es.replaced:
				fail("callback-obeyed", at, "a member is replaced although the callback may have asked for both to be kept")
			default:
				fail("visit-all", at, "a member that both have may be left as it is: the source's is lost")
			}
		}
		if can("MO_Custom") && (es.replaced || es.merged || es.slot) {
			fail("callback-obeyed", at, "a member is changed although the callback may have dealt with it itself")
		}
	}
	// ---- paths ----
	const (
		pBase = iota
		pSep
		pKey
		pCarried
		pOther
		pBadBase
	)
	var parts func(st *FState, n *Node, d int) []int
	parts = func(st *FState, n *Node, d int) []int {
		if d > 12 {
			return []int{pOther}
		}
		if is, here := srcPart(st, n, "member K"); is {
			if here {
				return []int{pKey}
			}
			return []int{pOther}
		}
		n = st.res(n)
		switch n.Op {
		case OConst:
			if n.IsNil {
				return nil
			}
			if n.Const != nil && n.Const.Kind() == constant.String {
				switch s := constant.StringVal(n.Const); s {
				case "":
					return nil
				case "/":
					return []int{pSep}
				}
			}
		case OConvert:
			return parts(st, n.Args[0], d+1)
		case OBuiltin:
			if n.Name == "append" && len(n.Args) == 2 {
				return append(parts(st, n.Args[0], d+1), parts(st, n.Args[1], d+1)...)
			}
		case OBin:
			if n.Tok == token.ADD {
				return append(parts(st, n.Args[0], d+1), parts(st, n.Args[1], d+1)...)
			}
		case OMakeSlice:
			if k, ok := constIntOf(n.Args[0]); ok && k == 0 {
				return nil
			}
		case OSlice:
			x := st.res(n.Args[0])
			if x.Op == OAlloc {
				var out []int
				for _, b := range ir.Blocks {
					for _, s := range b.Nodes {
						if s.Op == OStore {
							if l := ir.loc(s.Args[0]); l.Root.canon() == x {
								k, ok := constIntOf(s.Args[1])
								if !ok || k != '/' || len(out) > 0 {
									return []int{pOther}
								}
								out = []int{pSep}
							}
						}
					}
				}
				if out == nil && n.Hi {
					if k, ok := constIntOf(n.Args[len(n.Args)-1]); ok && k == 0 {
						return nil // make([]byte, 0, const)
					}
				}
				return out
			}
			if !n.Lo && n.Hi {
				hi, k := linOf(st, n.Args[1])
				if c, ok := constIntOf(hi); ok {
					if c+k == 0 {
						return nil
					}
					return []int{pOther}
				}
				if hi.Op == OBuiltin && hi.Name == "len" {
					y := parts(st, hi.Args[0], d+1)
					if path != nil && st.res(hi.Args[0]) == path || len(y) == 0 || len(y) == 1 && y[0] == pBase {
						if k != 0 {
							return []int{pBadBase}
						}
						return y
					}
				}
				return []int{pOther}
			}
			if !n.Lo && !n.Hi {
				return parts(st, x, d+1)
			}
		case OPhi:
			for _, l := range ir.Loops {
				if n.Blk == l.Header {
					return []int{pCarried}
				}
			}
		}
		if n == path {
			return []int{pBase}
		}
		return []int{pOther}
	}
	prefix := false // paths handed down end with the separator already
	baseLen := func(st *FState) AV {
		v := AV{lo: 0, hi: inf}
		if path == nil {
			return v
		}
		for _, n := range lens {
			y := parts(st, n.Args[0], 0)
			if len(y) == 1 && y[0] == pBase {
				v = v.meet(st.val(n))
			}
		}
		for k, b := range st.fact {
			if k.op != token.EQL || k.b == nil {
				continue
			}
			a, c := k.a, k.b
			if a.Op == OConst {
				a, c = c, a
			}
			if a == path && c.Op == OConst && isString(path.Typ) && c.Const != nil && constant.StringVal(c.Const) == "" {
				if b {
					v = v.meet(AV{lo: 0, hi: 0})
				} else {
					v = v.meet(AV{lo: 1, hi: inf})
				}
			}
			if l, ok := st.val(c).exact(); ok && l == 0 && !b && a.Op == OBuiltin && a.Name == "len" {
				if y := parts(st, a.Args[0], 0); len(y) == 1 && y[0] == pBase {
					v = v.meet(AV{lo: 1, hi: inf})
				}
			}
		}
		return v
	}
	nonEmpty := func(st *FState, n *Node) bool {
		if st.val(n).lo > 0 {
			return true
		}
		for k, b := range st.fact {
			if !b && k.op == token.EQL && k.b != nil && (k.a == n || k.b == n) {
				o := k.a
				if o == n {
					o = k.b
				}
				if x, ok := st.val(o).exact(); ok && x == 0 {
					return true
				}
			}
		}
		return false
	}
	checkPath := func(st *FState, at, n *Node, down bool) {
		for _, l := range lens {
			if nonEmpty(st, l) && len(parts(st, l.Args[0], 0)) == 0 {
				return // cannot happen
			}
		}
		ps := parts(st, n, 0)
		for _, x := range ps {
			switch x {
			case pOther:
				r.count("paths_not_understood")
				return
			case pCarried:
				fail("callback-path", at, "the path still has what an earlier member left in it")
				return
			case pBadBase:
				fail("callback-path", at, "the path is not cut back to the parent's before the key is added")
				return
			}
		}
		r.count("paths")
		base, sep, key, tail := 0, 0, 0, 0
		for i, x := range ps {
			switch x {
			case pBase:
				if i > 0 {
					fail("callback-path", at, "the parts of the path are not in the order parent, separator, key")
					return
				}
				base++
			case pSep:
				if key > 0 {
					tail++
				} else {
					sep++
				}
			case pKey:
				key++
			}
		}
		switch {
		case key != 1:
			fail("callback-path", at, "the path does not end with the member's own key")
		case tail > 0 && !(prefix && down && tail == 1):
			fail("callback-path", at, "the path ends with a separator")
		case path != nil && base == 0 && baseLen(st).hi > 0:
			fail("callback-path", at, "the path does not start with the parent's")
		case prefix && sep > 0:
			fail("callback-path", at, "the path has a separator too many")
		case prefix:
		case sep > 1:
			fail("callback-path", at, "the path has a separator too many")
		case sep == 0 && base > 0 && baseLen(st).hi > 0:
			fail("callback-path", at, "the parent's path and the key are not separated, although the parent's path may not be empty")
		case sep == 1 && (base == 0 || baseLen(st).lo < 1):
			fail("callback-path", at, "the path of a member of the root starts with a separator")
		}
	}
	fl.Forked = note
	fl.Edge = func(st *FState, iff *Node) {
		es := st.C.(*mergeState)
		note(st)
		if es.coll {
			for _, n := range elens {
				if v := st.val(n); v.hi <= 0 {
					es.coll = false // nothing was collected on this path after all
				}
			}
			for _, cv := range covers {
				if cv.If == iff && kind[cv] == "" && cv.Slice != nil {
					if x, ok := st.decide(iff.Args[0], 0); ok && x != cv.In {
						es.coll = false
					}
				}
			}
		}
		for _, cv := range covers {
			if cv.If != iff || kind[cv] == "" {
				continue
			}
			x, ok := st.decide(iff.Args[0], 0)
			if !ok {
				continue
			}
			es.fresh()
			if x == cv.In {
				es.pend[cv] = true
				delete(es.done, cv)
			} else {
				delete(es.pend, cv)
				es.done[cv] = true
			}
		}
	}
	copyOf := func(st *FState, n *Node) *Node { // what n is a copy of
		for _, x := range []*Node{n, st.res(n)} {
			if x.Op == OCall && x.Callee != nil {
				if a := copierArg(x.Callee); a >= 0 && a < len(x.Args) && (p.recursive(x.Callee) || x.Callee.Name() == "Clone") {
					return x.Args[a]
				}
			}
		}
		return nil
	}
	moved := func(st *FState, at, val *Node, slot bool) {
		es := st.C.(*mergeState)
		if isString(val.Typ) {
			if _, here := srcPart(st, val, "member K"); here {
				es.k = true
			}
		}
		if isValuePtr(val.Typ) {
			src := copyOf(st, val)
			if src == nil {
				if is, _ := srcElem(st, val); is {
					if st.immutable(val) || st.immutable(rawNode(val)) {
						src = val
					} else {
						fail("copies", at, "a member or element of the source itself becomes part of the target: a later change of one changes the other")
						src = val
					}
				} else if dstElem(st, val) {
					es.oldM = true
				}
			}
			if src != nil {
				if _, here := srcElem(st, src); here {
					if slot {
						es.replaced = true
					} else {
						es.v, es.newM = true, true
					}
				} else if dstElem(st, src) {
					es.oldM = true
				}
			} else if slot {
				es.slot = true
			}
		}
		if es.newM && !slot && at.Op == OStore && cur(st) != nil && kind[cur(st)] == "farr" {
			if x := ir.loc(at.Args[0]).Root.canon(); (x.Op == OAlloc || x.Op == OMakeSlice) && isValuePtr(val.Typ) {
				es.coll = true
			}
		}
		if cv := cur(st); cv != nil {
			if es.v && (es.k || kind[cv] == "farr") {
				es.added = true
			}
		}
	}
	// the convention for paths
	if f != top || path != nil {
		st0 := &FState{}
		_ = st0
	}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OCall && n.Callee != nil {
				if _, _, ok := isMerge(n.Callee); ok {
					for _, a := range n.Args {
						if a.Typ != nil && (isByteSlice(a.Typ) || isString(a.Typ)) {
							x := a.canon()
							for x.Op == OConvert {
								x = x.Args[0].canon()
							}
							var last *Node
							if x.Op == OBuiltin && x.Name == "append" && len(x.Args) == 2 || x.Op == OBin && x.Tok == token.ADD {
								last = x.Args[1].canon()
							}
							if last != nil {
								if last.Op == OConst && last.Const != nil && last.Const.Kind() == constant.String && constant.StringVal(last.Const) == "/" {
									prefix = true
								}
								if last.Op == OSlice && last.Args[0].canon().Op == OAlloc {
									prefix = true
								}
							}
						}
					}
				}
			}
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		es := st.C.(*mergeState)
		switch n.Op {
		case OStore:
			l := ir.loc(n.Args[0])
			if l.Root.canon() == src {
				return true
			}
			val := n.Args[1]
			if l.Root.canon() == dst {
				es.coll = false
			}
			if val.Typ == nil || !isValuePtr(val.Typ) && !isString(val.Typ) {
				return true
			}
			slot := false
			if s, i, _ := ir.elemOfLoc(l); s != nil {
				if _, o := ir.sliceField(s); o == dst && isValuePtr(val.Typ) && i != nil {
					for _, lk := range lookups {
						if i.canon() == lk || st.res(i) == lk {
							slot = true
						}
					}
				}
			}
			moved(st, n, val, slot)
		case OCall:
			if n.Callee == nil {
				if len(n.Args) > 0 && n.Args[0].canon() == fn {
					es.called = n
					r.count("callbacks")
					var ptrs []*Node
					for _, a := range n.Args[1:] {
						if isString(a.Typ) {
							checkPath(st, n, a, false)
						} else if isValuePtr(a.Typ) {
							ptrs = append(ptrs, a)
						}
					}
					if len(ptrs) == 2 {
						is, here := srcElem(st, ptrs[1])
						switch {
						case dstElem(st, ptrs[1]) && !is || func() bool { x, _ := srcElem(st, ptrs[0]); return x }():
							fail("callback", n, "the callback is given the two members the wrong way round")
						case is && !here:
							fail("callback", n, "the callback is not given the source's member at hand")
						case len(lookups) > 0 && dstElem(st, ptrs[0]) && !dstHere(st, ptrs[0]):
							fail("callback", n, "the callback is not given the target's member of that key")
						}
					}
				}
				return true
			}
			if d, s, ok := isMerge(n.Callee); ok {
				more(n.Callee)
				if _, here := srcElem(st, n.Args[s]); here && dstElem(st, n.Args[d]) {
					es.merged = true
				} else if _, here := srcElem(st, n.Args[d]); here && dstElem(st, n.Args[s]) {
					fail("visit-all", n, "the target's member is merged into the source's, not the other way round")
					es.merged = true
				} else if n.Args[s].canon() == src && n.Args[d].canon() == dst {
					es.handed = true
					es.coll = false
					return true
				} else {
					return true
				}
				hasPath := false
				for i, a := range n.Args {
					t := n.Callee.Params[i].Type()
					if _, is := t.Underlying().(*types.Signature); is {
						if x := st.res(a); x != fn && !(x.Op == OConst && st.nilState(fn) == 1) {
							fail("callback", n, "the callback is not handed on to the merge of the two members")
						}
					}
					if isByteSlice(t) || isString(t) {
						hasPath = true
						if st.nilState(fn) != 1 {
							checkPath(st, n, a, true)
						}
					}
				}
				if !hasPath && st.nilState(fn) != 1 {
					mo := maskOf(st, func(x *Node) bool { return dstElem(st, x) })
					mn := maskOf(st, func(x *Node) bool { _, h := srcElem(st, x); return h })
					if mo&mn&p.vtMask("VT_Object") != 0 {
						fail("callback-path", n, "two members that may be objects are merged as if they were roots: the callback is told paths without the parent's")
					}
				}
				return true
			}
			if !p.internal(n.Callee) || copierArg(n.Callee) >= 0 || n.Callee.Name() == "Equal" {
				return true
			}
			if _, ok := lookupFn(n.Callee); ok {
				if objPtr(n.Args[0]) == dst {
					if is, here := srcPart(st, n.Args[1], "member K"); is && !here && cur(st) != nil {
						fail("visit-all", n, "the target is searched for another member's key than that of the member at hand")
					}
				}
				return true
			}
			if len(n.Args) > 0 && (objPtr(n.Args[0]) == dst || n.Args[0].canon() == dst) {
				es.coll = false
			}
			if recvIs(n.Callee, "*DxValue", "*VObject") && len(n.Args) > 1 {
				onDst := objPtr(n.Args[0]) == dst
				for _, a := range n.Args[1:] {
					if a.Typ != nil && (isValuePtr(a.Typ) || isString(a.Typ)) {
						moved(st, n, a, onDst && foundState(st) == 1 && kind[cur(st)] == "strkvs")
					}
				}
			}
		case OReturn:
			note(st)
			if b, ok := st.fact[eqKey(dst, src)]; ok && b {
				return true
			}
			if st.nilState(dst) == 1 || st.nilState(src) == 1 || st.immutable(dst) || st.immutable(src) {
				return true
			}
			ms := maskOf(st, func(x *Node) bool { return x.canon() == src })
			md := maskOf(st, func(x *Node) bool { return x.canon() == dst })
			eq := false
			for k, b := range st.fact {
				if k.op == token.EQL && k.b != nil && tname(k.a.Typ) == "ValueType" {
					a, c := dtRoot(k.a), dtRoot(k.b)
					if a != nil && c != nil && (a.canon() == src && c.canon() == dst || a.canon() == dst && c.canon() == src) {
						if !b {
							return true
						}
						eq = true
					}
				}
			}
			m := ms & md
			if m == 0 {
				return true
			}
			r.count("return_paths")
			need := []string{}
			if f == top || eq || ms == md && ms&(ms-1) == 0 {
				if m&p.vtMask("VT_Object") != 0 {
					need = append(need, "strkvs")
				}
				if m&p.vtMask("VT_Array") != 0 {
					need = append(need, "farr")
				}
			} else {
				for _, k := range []string{"strkvs", "farr"} {
					for _, x := range kind {
						if x == k {
							need = append(need, k)
							break
						}
					}
				}
			}
			if es.coll && len(need) > 0 {
				fail("visit-all", n, "elements that the target does not have are collected, but the merge may return without adding them to it")
			}
			if len(es.pend) > 0 {
				fail("visit-all", n, "the loop over the source is left before its last member or element")
				return true
			}
			if es.handed {
				return true
			}
			for _, k := range need {
				ok, why := false, ""
				for cv := range es.done {
					if kind[cv] == k {
						if cv.Full {
							ok = true
						} else {
							why = cv.Why
						}
					}
				}
				if !ok && why != "" {
					fail("visit-all", n, "not all %s of the source are visited: the loop %s", whatName(k), why)
				} else if !ok && !emptyNow(st, ir, so, k) {
					fail("visit-all", n, "the merge may return without visiting the %s of the source", whatName(k))
				}
			}
		}
		return true
	}
	fl.run()
	if fl.Too {
		r.Counts["too_large"]++
		return
	}
	r.count("merge_functions")
	r.sample(fmt.Sprintf("%s: %d loops over the source, %d lookups", fnName(f), len(kind), len(lookups)))
	if os.Getenv("DXDEBUG") != "" {
		fmt.Println(fnName(f), "covers", len(kind), "lookups", len(lookups), "visits", fl.Visits)
	}
}

// ownFresh: a slice of values that is neither the source's nor the target's.
func (ir *IR) ownFresh(n *Node, so, do map[*Node]bool) bool {
	s, ok := n.Typ.Underlying().(*types.Slice)
	if !ok || !isValuePtr(s.Elem()) {
		return false
	}
	_, o := ir.sliceField(n)
	return o == nil || !so[o] && !do[o]
}

func emptyNow(st *FState, ir *IR, owners map[*Node]bool, w string) bool {
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OBuiltin && n.Name == "len" && st.val(n).hi <= 0 {
				if c, ok := ir.contentOf(n, owners); ok && c.what == "len "+w {
					return true
				}
			}
		}
	}
	return false
}

// typesNeq: the two members are known to be of different types.
func typesNeq(st *FState, root func(*Node) *Node, old, new func(*Node) bool) bool {
	for k, b := range st.fact {
		if !b && k.op == token.EQL && k.b != nil && tname(k.a.Typ) == "ValueType" {
			a, c := root(k.a), root(k.b)
			if a != nil && c != nil && (old(a) && new(c) || old(c) && new(a)) {
				return true
			}
		}
	}
	return false
}
