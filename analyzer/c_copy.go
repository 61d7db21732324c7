package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: copies are complete and share nothing that can change.

func init() {
	register("C11", (*Check).copies)
}

// recursive: the function takes part in a cycle of calls.
func (p *Program) recursive(f *ssa.Function) bool { return p.inCycle[f] }

func isValuePtr(t types.Type) bool { return t != nil && tname(t) == "*DxValue" }

// maker: a function that makes a value of the type it is told, from nothing else.
func maker(f *ssa.Function) (arg int) {
	sg := f.Signature
	if sg.Results().Len() != 1 || !isValuePtr(sg.Results().At(0).Type()) {
		return -1
	}
	arg = -1
	for i, q := range f.Params {
		if isValuePtr(q.Type()) || isString(q.Type()) || isIntType(q.Type()) && tname(q.Type()) != "ValueType" {
			return -1
		}
		if tname(q.Type()) == "ValueType" {
			if arg >= 0 {
				return -1
			}
			arg = i
		}
	}
	return
}

// resetter: a method that gives its value another type and nothing of content.
func resetter(f *ssa.Function) bool {
	return recvIs(f, "*DxValue") && len(f.Params) == 2 && tname(f.Params[1].Type()) == "ValueType" && f.Signature.Results().Len() == 0
}

// copier: a function that returns a value and takes one.
func copierArg(f *ssa.Function) int {
	sg := f.Signature
	if sg.Results().Len() != 1 || !isValuePtr(sg.Results().At(0).Type()) {
		return -1
	}
	at := -1
	for i, q := range f.Params {
		if isValuePtr(q.Type()) {
			if at >= 0 {
				return -1
			}
			at = i
		} else if isString(q.Type()) || isIntType(q.Type()) {
			return -1
		}
	}
	return at
}

// intoArgs: a function that takes over the content of one value into another.
func intoArgs(f *ssa.Function) (dst, src int) {
	if f.Signature.Results().Len() != 0 {
		return -1, -1
	}
	dst, src = -1, -1
	for i, q := range f.Params {
		switch {
		case isString(q.Type()) || isIntType(q.Type()):
			return -1, -1
		case !isValuePtr(q.Type()):
		case dst < 0:
			dst = i
		case src < 0:
			src = i
		default:
			return -1, -1
		}
	}
	if src < 0 {
		return -1, -1
	}
	return
}

type copyState struct {
	got    map[string]bool // "R what": taken over
	shared map[string]bool // "R what": the very same memory
	bulk   map[string]bool // "R what": elements copied as they are
	typ    map[*Node]*Node // the type a value was given
	same   map[*Node]bool  // loads of the copy's type
	into   map[*Node]*Node // element filled from another one
	k, v   bool            // key and value of the member at hand are taken over
	pend   map[*Cover]bool
	skip   map[*Cover]bool
	done   map[*Cover]bool
}

func newCopyState() *copyState {
	return &copyState{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[*Node]*Node{}, map[*Node]bool{}, map[*Node]*Node{}, false, false,
		map[*Cover]bool{}, map[*Cover]bool{}, map[*Cover]bool{}}
}

func (s *copyState) Key() string {
	var l []string
	for k, b := range s.got {
		if b {
			l = append(l, "g"+k)
		}
	}
	for k := range s.shared {
		l = append(l, "s"+k)
	}
	for k := range s.bulk {
		l = append(l, "b"+k)
	}
	for a, b := range s.typ {
		l = append(l, fmt.Sprint("t", a.ID, "=", b.ID))
	}
	for a := range s.same {
		l = append(l, fmt.Sprint("e", a.ID))
	}
	for a, b := range s.into {
		l = append(l, fmt.Sprint("i", a.ID, "=", b.ID))
	}
	for n := range s.pend {
		l = append(l, fmt.Sprintf("p%d", n.If.ID))
	}
	for n := range s.done {
		l = append(l, fmt.Sprintf("d%d", n.If.ID))
	}
	for n := range s.skip {
		l = append(l, fmt.Sprintf("k%d", n.If.ID))
	}
	sort.Strings(l)
	return strings.Join(l, ",") + fmt.Sprint(s.k, s.v)
}

func (s *copyState) Clone() CState {
	n := newCopyState()
	for k, v := range s.got {
		n.got[k] = v
	}
	for k := range s.shared {
		n.shared[k] = true
	}
	for k := range s.bulk {
		n.bulk[k] = true
	}
	for k, v := range s.typ {
		n.typ[k] = v
	}
	for k := range s.same {
		n.same[k] = true
	}
	for k, v := range s.into {
		n.into[k] = v
	}
	for k := range s.pend {
		n.pend[k] = true
	}
	for k := range s.done {
		n.done[k] = true
	}
	for k := range s.skip {
		n.skip[k] = true
	}
	n.k, n.v = s.k, s.v
	return n
}

// copyPolicy inlines helpers, but neither what makes or resets values nor recursive copying.
func (p *Program) copyPolicy(limit int) InlinePolicy {
	mid := inlineUpTo(limit)
	return func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if maker(g) >= 0 || resetter(g) || p.recursive(g) && (copierArg(g) >= 0) {
			return false
		}
		if recvIs(g, "*VObject", "*DxValue") && g.Object() != nil && g.Object().Exported() {
			for _, q := range g.Params {
				if isString(q.Type()) {
					return false // a member by its name
				}
			}
		}
		if g.Signature.Recv() != nil && len(g.Params) == 1 && recvIs(g, "*VObject", "*DxValue") && g.Signature.Results().Len() == 1 && !isBoolType(g.Signature.Results().At(0).Type()) && p.recursive(g) {
			return false
		}
		return mid(ir, g, depth, stack)
	}
}

func (c *Check) copies() *Result {
	r := newResult()
	r.Min = 1
	r.Rules = []string{
		"a copy has the type of the original, on every path, and the content that belongs to every type the original may have there is taken over: number, text, bytes with extension type, every member with its key, every element",
		"nothing that can change is shared: no slice of bytes, members or elements is stored in the copy as it is, and every member and element is itself copied, unless it is nil or one of the constants",
		"the loops that copy members and elements visit all of them",
	}
	r.Assumptions = []string{"a value and the one it is copied to are different and not part of each other", "what makes or resets a value leaves it with the type it was told and no content (C10)"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	type job struct {
		f    *ssa.Function
		into bool
	}
	var work []job
	seen := map[job]bool{}
	add := func(j job) {
		if !seen[j] && p.internal(j.f) && len(j.f.Blocks) > 0 {
			seen[j] = true
			work = append(work, j)
		}
	}
	for _, f := range p.Funcs {
		if !recvIs(f, "*DxValue") || f.Synthetic != "" || f.Object() == nil {
			continue
		}
		switch f.Name() {
		case "Clone":
			if copierArg(f) == 0 {
				add(job{f, false})
			}
		case "CopyFrom", "AddFrom":
			if d, _ := intoArgs(f); d == 0 {
				add(job{f, true})
			}
		}
	}
	for len(work) > 0 {
		j := work[0]
		work = work[1:]
		r.Functions[fnName(j.f)] = true
		p.copyFn(r, j.f, j.into, func(f *ssa.Function, into bool) { add(job{f, into}) })
	}
	return r
}

// immutable: nothing, or one of the constants.
func (st *FState) immutable(n *Node) bool {
	if st.nilState(n) == 1 {
		return true
	}
	n = st.res(n)
	if constGlobal(n) {
		return true
	}
	for k, b := range st.fact {
		if b && k.op == token.EQL && k.b != nil && (k.a == n && constGlobal(k.b) || k.b == n && constGlobal(k.a)) {
			return true
		}
	}
	return false
}

func (p *Program) copyFn(r *Result, f *ssa.Function, into bool, more func(*ssa.Function, bool)) {
	ir := p.buildIR(f, p.copyPolicy(300))
	p.alias()
	ir.promote()
	var dst, src *Node
	if into {
		d, s := intoArgs(f)
		dst, src = ir.Params[d], ir.Params[s]
	} else {
		src = ir.Params[copierArg(f)]
	}
	if dst != nil {
		dst = dst.canon()
	}
	src = src.canon()
	adds := into && f.Name() == "AddFrom"
	owners := map[*Node]bool{src: true}
	vt := p.valueTypes()
	all := uint64(0)
	for _, x := range vt {
		all |= 1 << uint(x)
	}
	covers := ir.covers()
	kind := map[*Cover]string{}
	for _, cv := range covers {
		if cv.Slice != nil {
			if cl, o := ir.sliceField(cv.Slice); cl != "" && o == src {
				kind[cv] = cl[strings.IndexByte(cl, '.')+1:]
			}
		}
	}
	fl := &Flow{IR: ir, Max: 200, Init: newCopyState(), Limit: 300000}
	fl.prepare()
	dtOf := func(n *Node) *Node { // whose type a node is
		n = rawNode(n)
		var l Loc
		switch {
		case n.Op == OLoad:
			l = ir.loc(n.Args[0])
		case n.MemLoc != nil:
			l = *n.MemLoc
		case n.Op == OCall && n.Callee != nil && len(n.Args) == 1 && n.Typ != nil && tname(n.Typ) == "ValueType":
			return n.Args[0].canon()
		default:
			return nil
		}
		if l.Class == "DxValue.DataType" {
			return l.Root.canon()
		}
		return nil
	}
	var srcTypes []*Node
	seenT := map[*Node]bool{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if d := dtOf(n); d != nil {
				fl.Keep(n, n.canon())
				if d == src && !seenT[n.canon()] {
					seenT[n.canon()] = true
					srcTypes = append(srcTypes, n.canon())
				}
			}
			if n.Op == OCall && n.Typ != nil && isValuePtr(n.Typ) {
				fl.Keep(n)
			}
			if constGlobal(n.canon()) {
				fl.Keep(n.canon())
			}
		}
	}
	var lens, elems []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if c, ok := ir.contentOf(n, owners); ok {
				switch c.what {
				case "element", "member V":
					fl.Keep(n, n.canon())
					elems = append(elems, n)
				case "len fbinary", "len farr", "len strkvs", "len fstrvalue":
					fl.Keep(n, n.canon())
					lens = append(lens, n)
				}
			}
		}
	}
	empty := func(st *FState, w string) bool {
		for _, n := range lens {
			if c, ok := ir.contentOf(n, owners); ok && c.what == "len "+w && st.val(n).hi <= 0 {
				return true
			}
		}
		return false
	}
	fl.Keep(src)
	if dst != nil {
		fl.Keep(dst)
	}
	mk := func(st *FState, root *Node, what string) string { return fmt.Sprint(st.res(root).ID, " ", what) }
	isSrc := func(st *FState, n *Node) bool { return st.res(n) == src || n.canon() == src }
	from := func(st *FState, n *Node) (content, bool) {
		if c, ok := ir.contentOf(n, owners); ok {
			return c, true
		}
		return ir.contentOf(st.res(n), owners)
	}
	same := func(st *FState, i *Node, cv *Cover) bool {
		return i != nil && (cv.Idx == nil || i.canon() == cv.Idx || st.res(i) == st.res(cv.Idx))
	}
	bad := map[string]bool{}
	fail := func(rule string, n *Node, msg string, a ...interface{}) {
		s := fmt.Sprintf(msg, a...)
		if bad[s] || fl.unsure() {
			return
		}
		bad[s] = true
		pos := n.Pos
		if !pos.IsValid() {
			pos = f.Pos()
		}
		fr := fnName(f)
		if n.Frame != nil {
			fr = n.Frame.chain(p)
		}
		r.bad(p, rule, pos, fr, "%s", s)
	}
	// copied: the element of the source of which n is a copy
	copied := func(st *FState, n *Node) (content, bool) {
		for _, x := range []*Node{n, rawNode(n), st.res(n)} {
			if x.Op == OCall && x.Callee != nil {
				if a := copierArg(x.Callee); a >= 0 && a < len(x.Args) {
					if c, ok := from(st, x.Args[a]); ok && (c.what == "element" || c.what == "member V") {
						more(x.Callee, false)
						return c, true
					}
				}
			}
			if e := st.C.(*copyState).into[x]; e != nil {
				return from(st, e)
			}
		}
		if c, ok := from(st, n); ok && (c.what == "element" || c.what == "member V") && (st.immutable(n) || st.immutable(st.res(n))) {
			return c, true
		}
		return content{}, false
	}
	current := func(st *FState, c content) bool {
		es := st.C.(*copyState)
		for cv := range es.pend {
			if same(st, c.elem, cv) {
				return true
			}
		}
		return false
	}
	settle := func(st *FState) {
		es := st.C.(*copyState)
		for cv := range es.pend {
			bulkK := false
			for k := range es.bulk {
				if strings.HasSuffix(k, "strkvs") {
					bulkK = true
				}
			}
			if kind[cv] == "strkvs" && (es.k || bulkK) && es.v || kind[cv] == "farr" && es.v {
				delete(es.pend, cv)
			}
		}
	}
	// moved: n, stored or passed on, may be a part of the member at hand
	moved := func(st *FState, n, val *Node) {
		es := st.C.(*copyState)
		if c, ok := copied(st, val); ok {
			if current(st, c) {
				es.v = true
				settle(st)
			}
			return
		}
		// a nil element may be stored as nil
		if isValuePtr(val.Typ) && st.nilState(val) == 1 {
			for cv := range es.pend {
				ok := false
				for _, e := range elems {
					if c, is := ir.contentOf(e, owners); is && same(st, c.elem, cv) && (st.nilState(e) == 1 || st.nilState(e.canon()) == 1) {
						ok = true
					}
				}
				if ok {
					es.v = true
					settle(st)
					return
				}
			}
		}
		if c, ok := from(st, val); ok && c.what == "member K" && current(st, c) {
			es.k = true
			settle(st)
		}
	}
	part := func(st *FState, n *Node) bool { // a slice of less than the whole
		n = st.res(n)
		for n.Op == OSlice {
			if n.Lo {
				if k, ok := constIntOf(n.Args[1]); ok && k != 0 {
					return true
				}
			}
			if n.Hi {
				hi := n.Args[1]
				if n.Lo {
					hi = n.Args[2]
				}
				h, k := linOf(st, hi)
				if k < 0 && h.Op == OBuiltin && h.Name == "len" {
					return true
				}
			}
			n = st.res(n.Args[0])
		}
		return false
	}
	// strip: the slice n is taken of
	strip := func(st *FState, n *Node) *Node {
		for i := 0; i < 20; i++ {
			n = st.res(n)
			switch {
			case n.Op == OSlice:
				n = n.Args[0]
			case n.Op == OChangeType:
				n = n.Args[0]
			default:
				return n
			}
		}
		return n
	}
	sliceOf := func(st *FState, n *Node) string { // the source's own slice n is, or is taken of
		for i := 0; i < 20; i++ {
			for _, x := range []*Node{n, st.res(n)} {
				if rawNode(x).Op == OConvert {
					return ""
				}
				if c, ok := ir.contentOf(x, owners); ok && (c.what == "fbinary" || c.what == "farr") {
					return c.what
				}
				if cl, o := ir.sliceField(x); cl == "VObject.strkvs" && o == src {
					return "strkvs"
				}
				if cl, o := ir.sliceField(x); cl == "DxValue.farr" && o == src {
					return "farr"
				}
			}
			n = st.res(n)
			if n.Op != OSlice && n.Op != OChangeType {
				return ""
			}
			n = n.Args[0]
		}
		return ""
	}
	mutableSlice := map[string]string{"DxValue.fbinary": "fbinary", "DxValue.farr": "farr", "VObject.strkvs": "strkvs"}
	// stored: val is stored at l
	stored := func(st *FState, n *Node, l Loc, val *Node) {
		es := st.C.(*copyState)
		if l.Root.canon() == src || isSrc(st, l.Root) {
			return
		}
		root := l.Root
		if l.Class == "*DxValue" && l.Path == "" {
			return
		}
		switch l.Class {
		case "DxValue.DataType":
			es.typ[st.res(root)] = st.res(val)
			return
		case "DxValue.ExtType", "DxValue.simpleV", "DxValue.fstrvalue":
			w := strings.TrimPrefix(l.Class, "DxValue.")
			if c, ok := from(st, val); ok {
				got := c.what
				if strings.HasPrefix(got, "payload ") && l.Path != "" {
					es.got[mk(st, root, got)] = true
					if strings.HasSuffix(got, "64") {
						es.got[mk(st, root, "simpleV")] = true
					}
				}
				if got == "payload" {
					got = "simpleV"
				}
				switch {
				case got == w:
					es.got[mk(st, root, w)] = true
				case got == "String" && w == "fstrvalue":
					es.got[mk(st, root, "String")] = true
				case w == "simpleV" && (got == "Int" || got == "Double" || got == "Float" || got == "DateTime"):
					es.got[mk(st, root, got)] = true
				}
			} else if isZeroConst(val) || st.res(val).Op == OConst {
				delete(es.got, mk(st, root, w))
			}
			return
		case "DxValue.fobject":
			// the object as a whole
			if c, ok := from(st, val); ok && c.what == "fobject" {
				es.shared[mk(st, root, "strkvs")] = true
			} else {
				delete(es.shared, mk(st, root, "strkvs"))
			}
			return
		}
		if w := mutableSlice[l.Class]; w != "" {
			v := st.res(val)
			delete(es.shared, mk(st, root, w))
			if w == "fbinary" {
				delete(es.got, mk(st, root, w))
			}
			if w != "fbinary" {
				base, whole := val, true
				for i := 0; i < 20; i++ {
					base = st.res(base)
					if base.Op == OSlice {
						if base.Hi {
							hi := base.Args[1]
							if base.Lo {
								hi = base.Args[2]
							}
							if k, ok := constIntOf(st.res(hi)); ok && k == 0 {
								whole = false
							}
						}
						base = base.Args[0]
					} else if base.Op == OBuiltin && base.Name == "append" {
						base = base.Args[0]
					} else {
						break
					}
				}
				if cl, o := ir.sliceField(base); !whole || base.Op != OInit || cl != l.Class || st.res(o) != st.res(root) {
					es.got[mk(st, root, "clear "+w)] = true
				}
			}
			if s := sliceOf(st, val); s == w {
				es.shared[mk(st, root, w)] = true
				es.got[mk(st, root, w)] = true
				return
			}
			for i := 0; i < 8 && v.Op == OBuiltin && v.Name == "append"; i++ {
				if s := sliceOf(st, v.Args[0]); s == w {
					es.shared[mk(st, root, w)] = true
				}
				if len(v.Args) > 1 {
					a := v.Args[1]
					if s := sliceOf(st, a); s == w {
						es.got[mk(st, root, w)] = true
						if part(st, a) {
							fail("copy-complete", n, "only a part of the source's %s is copied", whatName(w))
						}
						if w != "fbinary" {
							es.bulk[mk(st, root, w)] = true
						}
					} else if w == "fbinary" {
						if c, ok := ir.contentOf(strip(st, a), owners); ok && c.what == "Binary" {
							es.got[mk(st, root, w)] = true
						}
					}
				}
				v = st.res(v.Args[0])
			}
			if w == "fbinary" {
				switch v.Op {
				case OCall:
					for _, a := range v.Args {
						if sliceOf(st, a) == w {
							es.got[mk(st, root, w)] = true
						}
						if c, ok := ir.contentOf(a, owners); ok && c.what == "Binary" {
							es.got[mk(st, root, w)] = true
						}
					}
				case OConvert:
					x := st.res(v.Args[0])
					if x.Op == OConvert {
						x = st.res(x.Args[0])
					}
					if sliceOf(st, x) == w {
						es.got[mk(st, root, w)] = true
					}
				case OMakeSlice:
					if es.got[fmt.Sprint(v.ID, " bytes")] {
						es.got[mk(st, root, w)] = true
					}
				}
			}
			return
		}
		if isValuePtr(val.Typ) || isString(val.Typ) {
			if isValuePtr(val.Typ) {
				if c, ok := from(st, val); ok && (c.what == "element" || c.what == "member V") && !st.immutable(val) && !st.immutable(rawNode(val)) {
					r.count("element_stores")
					fail("copy-independent", n, "%s of the source itself becomes part of the copy: a later change of one changes the other", map[string]string{"element": "an element", "member V": "a member"}[c.what])
				}
			}
			moved(st, n, val)
		}
	}
	typeMask := func(st *FState) uint64 {
		m := all
		es := st.C.(*copyState)
		meet := func(n *Node) {
			x, ok := st.val(n).asMask()
			if !ok {
				x = rangeMask(st.val(n))
			}
			m &= x
		}
		for _, n := range srcTypes {
			meet(n)
		}
		for n := range es.same {
			meet(n)
		}
		return m
	}
	check := func(st *FState, n *Node, R *Node) {
		es := st.C.(*copyState)
		R = st.res(R)
		if b, ok := st.fact[eqKey(R, src)]; ok && b {
			return // what was just made is not the source
		}
		m := typeMask(st)
		if adds {
			m &= p.vtMask("VT_Object", "VT_Array")
		}
		if m == 0 {
			return
		}
		r.count("return_paths")
		has := func(w string) bool { return es.got[mk(st, R, w)] }
		// the type
		okT := false
		isT := func(t *Node) bool {
			if d := dtOf(t); d == src {
				return true
			}
			if t = st.res(t); seenT[t] || dtOf(t) == src {
				return true
			}
			if x, ok := st.val(t).exact(); ok {
				return m == 1<<uint(x)
			}
			for _, s := range srcTypes {
				if b, ok := st.fact[eqKey(t, s)]; ok && b {
					return true
				}
			}
			return false
		}
		if t := es.typ[R]; t != nil {
			okT = isT(t)
		} else if into {
			for k, b := range st.fact {
				if b && k.op == token.EQL && k.b != nil && (dtOf(k.a) == R && dtOf(k.b) == src || dtOf(k.b) == R && dtOf(k.a) == src) {
					okT = true
				}
			}
			// the same single type
			for _, b := range ir.Blocks {
				for _, x := range b.Nodes {
					if dtOf(x) == R {
						if y, ok := st.val(x).exact(); ok && m == 1<<uint(y) {
							okT = true
						}
					}
				}
			}
		} else {
			okT = true // not understood
		}
		strs := p.vtMask("VT_String", "VT_RawString")
		if !okT && m&^strs == 0 && es.typ[R] != nil && has("String") {
			if x, ok := st.val(es.typ[R]).exact(); ok && x == int64(vt["VT_String"]) {
				okT = true
			}
		}
		if !okT {
			fail("copy-complete", n, "the copy may have another type than its source")
		}
		for name, t := range vt {
			b := uint64(1) << uint(t)
			if m&b == 0 {
				continue
			}
			what := ""
			container := func(fld string) {
				if es.shared[mk(st, R, fld)] {
					fail("copy-independent", n, "the copy uses the source's own list of %s", whatName(fld))
					return
				}
				ok, why := false, ""
				for cv := range es.done {
					switch {
					case kind[cv] != fld:
					case es.skip[cv]:
						if why == "" {
							why = fmt.Sprintf("one of the %s may be passed over when a value of type %s is copied: a round of the loop does not take it over", whatName(fld), name)
						}
					case !cv.Full:
						why = fmt.Sprintf("not every one of the %s is copied: the loop %s", whatName(fld), cv.Why)
					default:
						ok = true
					}
				}
				if into && !adds && !es.got[mk(st, R, "clear "+fld)] {
					fail("copy-complete", n, "%s that the target had before are still there after a value of type %s is copied to it", whatName(fld), name)
				}
				if !ok && why != "" {
					fail("copy-complete", n, "%s", why)
					return
				}
				if !ok && !empty(st, fld) {
					if es.bulk[mk(st, R, fld)] {
						fail("copy-independent", n, "the %s of the source themselves become part of the copy", whatName(fld))
						return
					}
					what = "the " + whatName(fld)
				}
			}
			switch name {
			case "VT_String", "VT_RawString":
				if !has("fstrvalue") && !has("String") && !empty(st, "fstrvalue") {
					what = "the text"
				}
				if has("String") && !has("fstrvalue") && name == "VT_RawString" {
					if t := es.typ[R]; t == nil {
					} else if x, ok := st.val(t).exact(); !ok || x == int64(t2i(vt, "VT_RawString")) {
						fail("copy-complete", n, "the unescaped text is stored in a copy that may count as not unescaped yet")
					}
				}
			case "VT_Int":
				if !has("simpleV") && !has("Int") {
					what = "the number"
				}
			case "VT_Float":
				if !has("simpleV") && !has("payload float32") && !has("payload uint32") && !has("payload int32") && !has("Float") && !has("Double") {
					what = "the number"
				}
			case "VT_Double", "VT_DateTime":
				if !has("simpleV") && !has("Double") && !has("DateTime") {
					what = "the number"
				}
			case "VT_Binary", "VT_ExBinary":
				if es.shared[mk(st, R, "fbinary")] {
					fail("copy-independent", n, "the copy uses the source's own bytes")
				}
				if !has("fbinary") && !empty(st, "fbinary") {
					what = "the bytes"
				} else if name == "VT_ExBinary" && !has("ExtType") {
					// also when there are no bytes
					what = "the extension type"
				}
			case "VT_Object":
				container("strkvs")
			case "VT_Array":
				container("farr")
			}
			if what != "" {
				fail("copy-complete", n, "a copy of a value of type %s is returned without %s of the source", name, what)
			}
		}
	}
	fl.Edge = func(st *FState, iff *Node) {
		es := st.C.(*copyState)
		for _, cv := range covers {
			if cv.If != iff || kind[cv] == "" {
				continue
			}
			x, ok := st.decide(iff.Args[0], 0)
			if !ok {
				continue
			}
			if es.pend[cv] {
				es.skip[cv] = true
			}
			es.k, es.v = false, false
			es.into = map[*Node]*Node{}
			if x == cv.In {
				es.pend[cv] = true
				delete(es.done, cv)
			} else {
				delete(es.pend, cv)
				es.done[cv] = true
			}
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		es := st.C.(*copyState)
		switch n.Op {
		case OLoad:
			if d := dtOf(n); d != nil && d != src {
				if t := es.typ[st.res(d)]; t != nil && (dtOf(t) == src || seenT[st.res(t)]) {
					es.same[n.canon()] = true
				}
			}
		case OStore:
			l := ir.loc(n.Args[0])
			if l.Class == "*DxValue" || tname(deref(n.Args[0].Typ)) == "DxValue" {
				// a value as a whole
				a := rawNode(n.Args[1])
				if a.Op == OLoad && isSrc(st, a.Args[0]) && !isSrc(st, n.Args[0]) {
					for _, w := range []string{"ExtType", "simpleV", "fstrvalue", "fbinary", "farr", "strkvs"} {
						es.got[mk(st, n.Args[0], w)] = true
					}
					for _, w := range []string{"fbinary", "farr", "strkvs"} {
						es.shared[mk(st, n.Args[0], w)] = true
					}
					if len(srcTypes) > 0 {
						es.typ[st.res(n.Args[0])] = srcTypes[0]
					}
				}
				return true
			}
			stored(st, n, l, n.Args[1])
		case OBuiltin:
			switch n.Name {
			case "copy":
				d, s := n.Args[0], n.Args[1]
				if c, ok := ir.contentOf(s, owners); ok && c.what == "payload" {
					if dl := rawNode(d); dl.Op == OSlice {
						if l := ir.loc(dl.Args[0]); l.Class == "DxValue.simpleV" && !part(st, d) && !part(st, s) {
							es.got[mk(st, l.Root, "simpleV")] = true
						}
					}
				}
				if w := sliceOf(st, s); w == "fbinary" {
					if part(st, s) {
						fail("copy-complete", n, "only a part of the source's bytes is copied")
					}
					base := strip(st, d)
					if base.Op == OMakeSlice {
						es.got[fmt.Sprint(base.ID, " bytes")] = true
					}
					for _, x := range []*Node{rawNode(d), base} {
						if x.Op == OLoad {
							if l := ir.loc(x.Args[0]); l.Class == "DxValue.fbinary" {
								es.got[mk(st, l.Root, "fbinary")] = true
							}
						}
					}
					for k := range es.typ {
						if st.res(ir.fieldValue(k, "fbinary", n.Blk, n.Idx)) == base {
							es.got[mk(st, k, "fbinary")] = true
						}
					}
					if dst != nil && st.res(ir.fieldValue(dst, "fbinary", n.Blk, n.Idx)) == base {
						es.got[mk(st, dst, "fbinary")] = true
					}
				} else if w != "" {
					for k := range es.typ {
						es.bulk[mk(st, k, w)] = true
					}
					if dst != nil {
						es.bulk[mk(st, dst, w)] = true
					}
				}
			}
		case OCall:
			if n.Callee == nil {
				return true
			}
			if a := maker(n.Callee); a >= 0 && a < len(n.Args) {
				es.typ[n] = n.Args[a].canon()
				return true
			}
			if resetter(n.Callee) {
				R := st.res(n.Args[0])
				if R == src {
					return true
				}
				es.typ[R] = n.Args[1].canon()
				pre := fmt.Sprint(R.ID, " ")
				for _, m := range []map[string]bool{es.got, es.shared, es.bulk} {
					for k := range m {
						if strings.HasPrefix(k, pre) {
							delete(m, k)
						}
					}
				}
				es.got[pre+"clear farr"] = true
				es.got[pre+"clear strkvs"] = true
				return true
			}
			if !p.internal(n.Callee) {
				return true
			}
			if d, s := intoArgs(n.Callee); d >= 0 && s < len(n.Args) {
				if c, ok := from(st, n.Args[s]); ok && (c.what == "element" || c.what == "member V") {
					more(n.Callee, true)
					es.into[st.res(n.Args[d])] = rawNode(n.Args[s])
				}
				return true
			}
			if copierArg(n.Callee) >= 0 {
				return true
			}
			if recvIs(n.Callee, "*DxValue", "*VObject") && len(n.Args) > 1 && !isSrc(st, n.Args[0]) {
				root := n.Args[0]
				for _, a := range n.Args[1:] {
					if isValuePtr(a.Typ) || isString(a.Typ) {
						moved(st, n, a)
					}
					if c, ok := from(st, a); ok {
						switch c.what {
						case "Int", "Double", "Float", "String", "DateTime", "GoTime":
							w := c.what
							if w == "GoTime" {
								w = "DateTime"
							}
							es.got[mk(st, root, w)] = true
							if w == "String" {
								es.got[mk(st, root, "fstrvalue")] = true
							}
						}
						if strings.HasPrefix(c.what, "payload") {
							es.got[mk(st, root, "simpleV")] = true
						}
					}
				}
			}
		case OReturn:
			if os.Getenv("DXDEBUG") != "" {
				fmt.Println("RET", p.pos(n.Pos), n.dump(), es.Key(), p.maskNames(typeMask(st)))
			}
			settle(st)
			nv := st.nilState(src)
			if into {
				if nv == 1 || st.immutable(dst) {
					return true
				}
				if b, ok := st.fact[eqKey(dst, src)]; ok && b {
					return true
				}
				check(st, n, dst)
				return true
			}
			R := st.res(n.Args[0])
			if nv == 1 {
				return true
			}
			if R == src {
				if !st.immutable(src) {
					fail("copy-independent", n, "the source itself is returned as its copy although it may be one that can be changed")
				}
				return true
			}
			if st.immutable(R) {
				if st.nilState(R) == 1 && !st.immutable(src) {
					fail("copy-complete", n, "nothing is returned as the copy of a value")
				}
				return true
			}
			if R.Op == OCall && R.Callee != nil {
				if a := copierArg(R.Callee); a >= 0 && a < len(R.Args) && isSrc(st, R.Args[a]) {
					more(R.Callee, false)
					r.count("return_paths")
					return true
				}
			}
			check(st, n, R)
		}
		return true
	}
	fl.run()
	if fl.Too {
		r.Counts["too_large"]++
		return
	}
	r.count("copiers")
	r.sample(fmt.Sprintf("%s: %d loops over the source", fnName(f), len(kind)))
	_ = bits.OnesCount64
}

func t2i(m map[string]int64, k string) int64 { return m[k] }

func whatName(w string) string {
	switch w {
	case "farr":
		return "elements"
	case "strkvs":
		return "members"
	case "fbinary":
		return "bytes"
	}
	return w
}
