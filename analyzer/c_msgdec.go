package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: what a MsgPack item means, for each of the 256 lead bytes.

func init() {
	register("C13", (*Check).msgpackDecoding)
}

// objCells is what is known of a value under construction on a path.
type objCells struct {
	raw    *Node // what was stored into the scalar payload
	dt     *Node // its type: a node
	dtv    int64 // or a constant
	hasDt  bool
	fields map[string]string // field -> term written
	lost   bool              // written to by something not looked into
}

type decState struct {
	obj   map[*Node]*objCells
	count map[string]bool // trip counts of the loops left, with the items they read
	empty map[*Node]bool  // loads of a text or binary that holds nothing
	item  string          // where the first item of the content was read
	key   string
}

func (s *decState) Key() string {
	var out []string
	for n, c := range s.obj {
		d := ""
		if c.dt != nil {
			d = fmt.Sprint("n", c.dt.ID)
		}
		var fs []string
		for k, v := range c.fields {
			fs = append(fs, k+"="+v)
		}
		sort.Strings(fs)
		out = append(out, fmt.Sprintf("%d:%s:%v:%d:%v:%s", n.ID, d, c.hasDt, c.dtv, c.lost, strings.Join(fs, ";")))
	}
	for k := range s.count {
		out = append(out, "c"+k)
	}
	for k := range s.empty {
		out = append(out, fmt.Sprint("e", k.ID))
	}
	sort.Strings(out)
	return strings.Join(out, "|") + "|" + s.item + "|" + s.key
}

func (s *decState) Clone() CState {
	n := &decState{obj: map[*Node]*objCells{}, count: map[string]bool{}, empty: map[*Node]bool{}, item: s.item, key: s.key}
	for k, c := range s.obj {
		d := *c
		d.fields = map[string]string{}
		for f, v := range c.fields {
			d.fields[f] = v
		}
		n.obj[k] = &d
	}
	for k := range s.count {
		n.count[k] = true
	}
	for k := range s.empty {
		n.empty[k] = true
	}
	return n
}

func (s *decState) cell(o *Node) *objCells {
	c := s.obj[o]
	if c == nil {
		c = &objCells{fields: map[string]string{}}
		s.obj[o] = c
	}
	return c
}

func (s *decState) Prune(keep func(*Node) bool) {}

func (s *decState) Reenter(st *FState, gone func(*Node) bool, phis map[*Node]*Node) {
	for n := range s.obj {
		if gone(n) {
			delete(s.obj, n)
		}
	}
}

// decoding looks at one function that decodes an item.
type decoding struct {
	p     *Program
	r     *Result
	f     *ssa.Function
	ir    *IR
	live  *Flow
	in    *Node
	kinds map[string]int64
	trips map[*Node]*trip
	vt    map[string]int64
	// another format than MsgPack: what is known at the start, and the judgement of a path that succeeds
	first func(s *decState)
	seed  func(st *FState)
	done  func(cs decCase, st *FState, n *Node, s *decState, o *Node, w *wire, report func(string, ...interface{}))
}

type trip struct {
	loop  *Loop
	init  *Node
	bound *Node
	off   int64
	plus  int64
	down  bool
	in    bool
}

// tripsOf: loops whose number of rounds is a difference.
func tripsOf(ir *IR) map[*Node]*trip {
	out := map[*Node]*trip{}
	for _, l := range ir.Loops {
		h := l.Header
		if len(h.Nodes) == 0 {
			continue
		}
		iff := h.Nodes[len(h.Nodes)-1]
		if iff.Op != OIf || len(h.Succs) != 2 || l.Blocks[h.Succs[0]] == l.Blocks[h.Succs[1]] {
			continue
		}
		in := l.Blocks[h.Succs[0]]
		c := iff.Args[0].canon()
		if c.Op != OBin || len(c.Args) != 2 {
			continue
		}
		for _, phi := range h.Nodes {
			if phi.Op != OPhi || !isIntType(phi.Typ) || len(phi.Args) != len(h.Preds) {
				continue
			}
			var init *Node
			step, ok := int64(0), true
			for i, p := range h.Preds {
				if l.Blocks[p] {
					k, ok2 := stepOf(phi.Args[i], phi)
					if !ok2 || step != 0 && k != step {
						ok = false
					}
					step = k
				} else if init != nil && init != phi.Args[i].canon() {
					ok = false
				} else {
					init = phi.Args[i].canon()
				}
			}
			if !ok || init == nil || step != 1 && step != -1 {
				continue
			}
			for side := 0; side < 2; side++ {
				x, bound := c.Args[side].canon(), c.Args[1-side].canon()
				off := int64(0)
				if x != phi {
					k, ok := stepOf(x, phi)
					if !ok {
						continue
					}
					off = k
				}
				if inLoop(l, bound) && bound.Op != OConst && bound.Op != OInit {
					continue
				}
				op := c.Tok
				swap := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
				neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
				if side == 1 {
					if o, ok := swap[op]; ok {
						op = o
					}
				}
				if !in {
					op = neg[op]
				}
				t := &trip{loop: l, init: init, bound: bound, off: off, down: step < 0, in: in}
				switch {
				case step > 0 && (op == token.LSS || op == token.NEQ), step < 0 && (op == token.GTR || op == token.NEQ):
				case step > 0 && op == token.LEQ, step < 0 && op == token.GEQ:
					t.plus = 1
				default:
					continue
				}
				out[iff] = t
				side = 2
			}
		}
	}
	return out
}

func (t *trip) rounds(w *wire) lin2 {
	a := w.lin(t.init).add(linConst(t.off), 1)
	b := w.lin(t.bound)
	if t.down {
		a, b = b, a
	}
	return b.add(a, -1).add(linConst(t.plus), 1)
}

// codeWant is what a lead byte stands for.
type codeWant struct {
	kind string // int, float, double, str, bin, ext, time, array, map, const, error
	typ  string // value type
	bits bitv
	head int64 // bytes before the content
	n    lin2  // length of the content, or number of elements
	null bool
}

func inByte(k int64) string { return fmt.Sprintf("in+%d", k) }

// wantFor is the MsgPack specification.
func wantFor(c int64) codeWant {
	be := func(off int64, w int, signed bool) bitv { return byteBits(inByte, off, w, false, signed) }
	cnt := func(w int) lin2 { return linTerm(be(1, w, false).String()) }
	switch {
	case c <= 0x7f:
		return codeWant{kind: "int", typ: "VT_Int", bits: constBits(c), head: 1}
	case c >= 0xe0:
		return codeWant{kind: "int", typ: "VT_Int", bits: constBits(c - 256), head: 1}
	case c <= 0x8f:
		return codeWant{kind: "map", typ: "VT_Object", head: 1, n: linConst(c & 15)}
	case c <= 0x9f:
		return codeWant{kind: "array", typ: "VT_Array", head: 1, n: linConst(c & 15)}
	case c <= 0xbf:
		return codeWant{kind: "str", typ: "VT_String", head: 1, n: linConst(c & 31)}
	}
	w := 8
	switch c {
	case 0xc0:
		return codeWant{kind: "const", typ: "VT_NULL", head: 1}
	case 0xc2:
		return codeWant{kind: "const", typ: "VT_False", head: 1}
	case 0xc3:
		return codeWant{kind: "const", typ: "VT_True", head: 1}
	case 0xc4, 0xc5, 0xc6:
		w <<= uint(c - 0xc4)
		return codeWant{kind: "bin", typ: "VT_Binary", head: 1 + int64(w/8), n: cnt(w)}
	case 0xc7, 0xc8, 0xc9:
		w <<= uint(c - 0xc7)
		return codeWant{kind: "ext", typ: "VT_ExBinary", head: 1 + int64(w/8), n: cnt(w).add(linConst(1), 1)}
	case 0xca:
		return codeWant{kind: "float", typ: "VT_Float", bits: be(1, 32, false), head: 5}
	case 0xcb:
		return codeWant{kind: "double", typ: "VT_Double", bits: be(1, 64, false), head: 9}
	case 0xcc, 0xcd, 0xce, 0xcf:
		w <<= uint(c - 0xcc)
		return codeWant{kind: "int", typ: "VT_Int", bits: be(1, w, false), head: 1 + int64(w/8)}
	case 0xd0, 0xd1, 0xd2, 0xd3:
		w <<= uint(c - 0xd0)
		return codeWant{kind: "int", typ: "VT_Int", bits: be(1, w, true), head: 1 + int64(w/8)}
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return codeWant{kind: "ext", typ: "VT_ExBinary", head: 1, n: linConst(1<<uint(c-0xd4) + 1)}
	case 0xd9, 0xda, 0xdb:
		w <<= uint(c - 0xd9)
		return codeWant{kind: "str", typ: "VT_String", head: 1 + int64(w/8), n: cnt(w)}
	case 0xdc, 0xdd:
		w = 16 << uint(c-0xdc)
		return codeWant{kind: "array", typ: "VT_Array", head: 1 + int64(w/8), n: cnt(w)}
	case 0xde, 0xdf:
		w = 16 << uint(c-0xde)
		return codeWant{kind: "map", typ: "VT_Object", head: 1 + int64(w/8), n: cnt(w)}
	}
	return codeWant{kind: "error"}
}

type decCase struct {
	lead  int64
	pins  map[int64]AV
	want  codeWant
	label string
	keyAt int64
	key   string
	item  string
	item0 string // where it is if the first key is empty
}

// decCases: the lead bytes, and for those whose meaning depends on more, the further bytes.
func decCases() []decCase {
	var out []decCase
	one := func(k int64) AV { return AV{lo: k, hi: k} }
	for c := int64(0); c < 256; c++ {
		w := wantFor(c)
		lab := fmt.Sprintf("lead byte 0x%02x", c)
		base := decCase{lead: c, pins: map[int64]AV{0: one(c)}, want: w, label: lab}
		with := func(l string, w codeWant, kv ...interface{}) decCase {
			d := base
			d.pins = map[int64]AV{0: one(c)}
			for i := 0; i < len(kv); i += 2 {
				d.pins[kv[i].(int64)] = kv[i+1].(AV)
			}
			d.want, d.label = w, lab+l
			return d
		}
		switch w.kind {
		case "ext":
			lens := []AV{{lo: 0, hi: 255}}
			at := w.head
			if c == 0xc7 {
				lens = []AV{{lo: 0, hi: 11}, one(12), {lo: 13, hi: 255}}
			}
			for _, ln := range lens {
				for _, ty := range []AV{{lo: 0, hi: 127}, {lo: 128, hi: 254}, one(255)} {
					x := w
					kv := []interface{}{at, ty}
					l := fmt.Sprintf(", extension type %d..%d", ty.lo, ty.hi)
					if c == 0xc7 {
						kv = append(kv, int64(1), ln)
						l += fmt.Sprintf(", length %d..%d", ln.lo, ln.hi)
						if v, ok := ln.exact(); ok {
							x.n = linConst(v + 1)
						}
					}
					if ty.lo == 255 && (c == 0xd6 || c == 0xd7 || c == 0xc7 && ln.lo == ln.hi) {
						x.kind, x.typ = "time", "VT_DateTime"
					}
					out = append(out, with(l, x, kv...))
				}
			}
		case "str", "bin":
			if !w.n.isConst() && w.head == 2 {
				x := w
				x.n = linConst(0)
				out = append(out, with(", length 0", x, int64(1), one(0)))
				out = append(out, with(", length 1..255", w, int64(1), AV{lo: 1, hi: 255}))
				continue
			}
			out = append(out, base)
		case "map":
			if w.n.isConst() && w.n.c == 0 {
				out = append(out, base)
				continue
			}
			for k := int64(0xa0); k <= 0xdb; k++ {
				if k > 0xbf && k < 0xd9 || w.n.isConst() && w.n.c != 1 && k != 0xa3 {
					continue
				}
				h := w.head
				n, kw := linConst(k&31), int64(1)
				if k >= 0xd9 {
					kw = 1 + 1<<uint(k-0xd9)
					n = linTerm(byteBits(inByte, h+1, int(kw-1)*8, false, false).String())
				}
				d := with(fmt.Sprintf(", first key's lead byte 0x%02x", k), w, h, one(k))
				d.keyAt = h
				off := linConst(h + kw)
				d.key = sliceTerm{base: "in", off: off, n: n, hasN: true}.String()
				if n.isConst() && n.c == 0 {
					d.key = "empty"
				}
				d.item = off.add(n, 1).String()
				if !n.isConst() {
					d.item0 = off.String()
				}
				out = append(out, d)
			}
		case "array":
			base.item = linConst(w.head).String()
			out = append(out, base)
		default:
			out = append(out, base)
		}
	}
	return out
}

func (c *Check) msgpackDecoding() *Result {
	r := newResult()
	r.Min = 256
	r.Rules = []string{
		"each function that decodes a MsgPack item is analysed once for each of the 256 lead bytes (and for extensions the type byte and length, for maps the lead byte of the first key) on all its paths: on each path that succeeds the type of the value, the bits of an integer or float (which bit of which input byte), the piece of the input taken as text or binary, the number of rounds of the loop that reads the elements, and the rest of the input handed back are those of the MsgPack specification",
		"the reserved lead byte is an error on every path, and no other lead byte is an error on every path",
		"an item is not rejected for missing bytes when it has all of them",
	}
	r.Assumptions = []string{"strings above 2^31 bytes and unsigned integers above 2^63 (kept modulo 2^64) are outside", "what makes or resets a value leaves it with the type it was told and no content (C10)", "time.Unix and the conversion to the internal time keep their meaning"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	ents := p.entries(func(f *ssa.Function) bool {
		return isDecodeEntry(f) && strings.Contains(strings.ToLower(f.Name()), "msgpack")
	})
	done := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, ents...)
	through := map[*ssa.Function]bool{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if done[f] || len(f.Blocks) == 0 {
			continue
		}
		done[f] = true
		d := &decoding{p: p, r: r, f: f, kinds: p.sharedConstants(), vt: p.valueTypes()}
		next := d.build(through)
		if d.in == nil {
			work = append(work, next...)
			continue
		}
		if !d.readsLead() && p.inCycle[f] {
			through[f] = true
			// its callers have read the lead byte
			for g := range done {
				if !p.inCycle[g] {
					delete(done, g)
				}
			}
			work = append(work, ents...)
			continue
		}
		work = append(work, next...)
		if d.readsLead() {
			r.Functions[fnName(f)] = true
			d.run()
		}
	}
	return r
}

// addsMember: the method that puts a value under a key.
func addsMember(g *ssa.Function) (key, val int, ok bool) {
	if g == nil || g.Signature.Recv() == nil {
		return
	}
	key, val = -1, -1
	for i, q := range g.Params {
		if i == 0 {
			continue
		}
		switch {
		case isString(q.Type()) && key < 0:
			key = i
		case isValuePtr(q.Type()) && val < 0:
			val = i
		default:
			return
		}
	}
	return key, val, key >= 0 && val >= 0
}

func (d *decoding) build(through map[*ssa.Function]bool) []*ssa.Function {
	p, f := d.p, d.f
	mid := inlineUpTo(900)
	var next []*ssa.Function
	pol := func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if !p.internal(g) || maker(g) >= 0 || resetter(g) {
			return false
		}
		if _, _, ok := addsMember(g); ok {
			return false
		}
		if p.inCycle[g] && !(p.inCycle[f] && p.scc[f] == p.scc[g]) && !through[g] {
			return false
		}
		return mid(ir, g, depth, stack)
	}
	ir := p.buildIR(f, pol)
	p.alias()
	ir.promote()
	d.ir = ir
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OCall && n.Callee != nil && p.internal(n.Callee) && n.Callee != f && p.inCycle[n.Callee] {
				for _, q := range n.Callee.Params {
					if isByteSlice(q.Type()) {
						next = append(next, n.Callee)
						break
					}
				}
			}
		}
	}
	for i, q := range f.Params {
		if isByteSlice(q.Type()) {
			d.in = ir.Params[i].canon()
			break
		}
	}
	return next
}

func (d *decoding) wire(st *FState) *wire {
	w := &wire{ir: d.ir, st: st}
	ds, _ := st.C.(*decState)
	w.at = func(n *Node) (sliceTerm, bool) {
		if ds != nil && ds.empty[n] {
			return sliceTerm{base: "empty", n: linConst(0), hasN: true}, true
		}
		if n == d.in {
			return sliceTerm{base: "in", n: linTerm("LEN"), hasN: true}, true
		}
		return sliceTerm{}, false
	}
	return w
}

func (d *decoding) readsLead() bool {
	st := &FState{phi: map[*Node]*Node{}, av: map[*Node]AV{}, fact: map[factKey3]bool{}}
	w := d.wire(st)
	for _, b := range d.ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op != OLoad && n.Op != OIndex {
				continue
			}
			if b, o, ok := w.bytePos(n); ok && b == "in" && o.isConst() && o.c == 0 {
				return true
			}
		}
	}
	return false
}

func isItemCall(p *Program, n *Node) bool {
	if n.Op != OCall || n.Callee == nil || !p.internal(n.Callee) || !p.inCycle[n.Callee] {
		return false
	}
	hasIn := false
	for _, q := range n.Callee.Params {
		if isByteSlice(q.Type()) {
			hasIn = true
		}
	}
	rs := n.Callee.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isValuePtr(rs.At(i).Type()) {
			return hasIn
		}
	}
	return false
}

func (d *decoding) run() {
	ir, p := d.ir, d.p
	d.trips = tripsOf(ir)
	proto := &Flow{IR: ir}
	proto.prepare()
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OLoad && n.Typ != nil && tname(n.Typ) == "ValueType" {
				proto.Keep(n.canon())
			}
			if n.Op == OPhi && n.Typ != nil && (isByteSlice(n.Typ) || isString(n.Typ) || isValuePtr(n.Typ) || isIntType(n.Typ) || tname(n.Typ) == "error") {
				proto.Keep(n)
			}
		}
	}
	for _, t := range d.trips {
		proto.Keep(t.init, t.bound)
	}
	d.live = proto
	bads := map[string][]string{}
	var order []string
	poss := map[string]token.Pos{}
	fns := map[string]string{}
	only, onlyKey := os.Getenv("DXLEAD"), os.Getenv("DXLABEL")
	for _, cs := range decCases() {
		if only != "" && only != fmt.Sprintf("%02x", cs.lead) || !strings.Contains(cs.label, onlyKey) {
			continue
		}
		d.r.count("lead bytes and further bytes decided on")
		for _, b := range d.one(cs) {
			if bads[b.msg] == nil {
				order = append(order, b.msg)
				poss[b.msg], fns[b.msg] = b.pos, b.fn
			}
			bads[b.msg] = append(bads[b.msg], cs.label)
		}
	}
	for _, m := range order {
		l := bads[m]
		s := l[0]
		if len(l) > 1 {
			s += fmt.Sprintf(" (and %d more cases)", len(l)-1)
		}
		d.r.bad(p, "msgpack item", poss[m], fns[m], "%s: %s", s, m)
	}
}

type decBad struct {
	msg string
	pos token.Pos
	fn  string
}

func (d *decoding) one(cs decCase) []decBad {
	ir, p := d.ir, d.p
	var bads []decBad
	dbg := os.Getenv("DXDEBUG") == fmt.Sprintf("%02x", cs.lead)
	seen := map[string]bool{}
	report := func(n *Node, f string, a ...interface{}) {
		m := fmt.Sprintf(f, a...)
		if seen[m] {
			return
		}
		seen[m] = true
		b := decBad{msg: m, pos: n.Pos, fn: fnName(d.f)}
		if n.Frame != nil {
			b.fn = n.Frame.chain(p)
		}
		bads = append(bads, b)
	}
	success, failures := 0, 0
	var someErr *Node
	fl := &Flow{IR: ir, Max: 64, Init: &decState{obj: map[*Node]*objCells{}, count: map[string]bool{}, empty: map[*Node]bool{}}, live: d.live.live, consts: d.live.consts, counted: d.live.counted, Limit: 20000}
	root := func(st *FState, n *Node) *Node { return st.res(n) }
	if d.first != nil {
		d.first(fl.Init.(*decState))
	}
	fl.Seed = func(st *FState) {
		if d.seed != nil {
			d.seed(st)
			return
		}
		for _, b := range ir.Blocks {
			for _, n := range b.Nodes {
				if n.Op == OBuiltin && n.Name == "len" && n.Args[0].canon() == d.in {
					st.set(n, AV{lo: 1, hi: inf})
				}
			}
		}
	}
	// where the content of the first round was found
	fl.Edge = func(st *FState, t *Node) {
		tr := d.trips[t]
		if tr == nil {
			return
		}
		// Edge is called for both sides: the side is in the decided condition
		v, ok := st.decide(t.Args[0], 0)
		if !ok || v == tr.in {
			return
		}
		has := false
		for b := range tr.loop.Blocks {
			for _, n := range b.Nodes {
				if isItemCall(p, n) {
					has = true
				}
			}
		}
		if has {
			st.C.(*decState).count[tr.rounds(d.wire(st)).String()] = true
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		cs0 := st.C.(*decState)
		w := d.wire(st)
		switch n.Op {
		case OLoad, OIndex:
			if n.Typ != nil {
				if bw, _, ok := intBits(n.Typ); ok && bw == 8 {
					if b, o, ok := w.bytePos(n); ok && b == "in" && o.isConst() {
						if v, ok := cs.pins[o.c]; ok {
							if !st.set(n, v) {
								return false
							}
						}
					}
				}
				if n.Op == OLoad && (isString(n.Typ) || isByteSlice(n.Typ)) {
					l := ir.loc(n.Args[0])
					if c := cs0.obj[root(st, l.Root)]; c != nil && strings.HasPrefix(l.Class, "DxValue.") && c.fields[strings.TrimPrefix(l.Class, "DxValue.")] == "empty" {
						cs0.empty[st.res(n)] = true
					} else {
						delete(cs0.empty, st.res(n))
					}
				}
				if tname(n.Typ) == "ValueType" && n.Op == OLoad {
					l := ir.loc(n.Args[0])
					if l.Class == "DxValue.DataType" {
						o := root(st, l.Root)
						if c := cs0.obj[o]; c != nil && c.hasDt {
							if c.dt == nil {
								if !st.set(n, AV{lo: c.dtv, hi: c.dtv}) {
									return false
								}
							} else if st.res(c.dt) != st.res(n) {
								st.fact[eqKey(st.res(c.dt), st.res(n))] = true
							}
						} else if !cs0.cell(o).lost {
							c := cs0.cell(o)
							c.hasDt, c.dt = true, n.canon()
						}
					}
				}
			}
		case OStore:
			l := ir.loc(n.Args[0])
			if !strings.HasPrefix(l.Class, "DxValue.") {
				return true
			}
			o := root(st, l.Root)
			if o.Typ == nil || !isValuePtr(o.Typ) {
				return true
			}
			c := cs0.cell(o)
			f := strings.TrimPrefix(l.Class, "DxValue.")
			x := n.Args[1]
			switch f {
			case "DataType":
				if v, ok := st.val(x).exact(); ok {
					c.hasDt, c.dt, c.dtv = true, nil, v
				} else {
					c.hasDt, c.dt = true, st.res(x)
				}
			case "ExtType":
				c.fields[f] = "?"
				if v, ok := st.val(x).exact(); ok {
					c.fields[f] = fmt.Sprint(v)
				}
			case "simpleV":
				c.raw = x
				c.fields[f] = d.payload(w, x, deref(n.Args[0].Typ))
			case "fstrvalue", "fbinary":
				if t, ok := w.slice(x); ok {
					c.fields[f] = t.String()
				} else {
					c.fields[f] = "?"
				}
			}
		case OBuiltin:
			if n.Name == "copy" {
				if o := payloadOf(ir, root(st, n.Args[0])); o != nil {
					c := cs0.cell(root(st, o))
					c.fields["simpleV"] = "?"
					if t, ok := w.slice(n.Args[1]); ok && t.base == "in" && t.off.isConst() && t.hasN && t.n.isConst() && t.n.c >= 8 {
						c.fields["simpleV"] = "int64 " + byteBits(inByte, t.off.c, 64, true, false).String()
					} else if ok && t.base == "in" && t.off.isConst() && t.hasN && t.n.isConst() && t.n.c > 0 {
						c.fields["simpleV"] = fmt.Sprintf("of only %d bytes", t.n.c)
					}
				}
			}
		case OCall:
			if n.Callee == nil {
				return true
			}
			if a := maker(n.Callee); a >= 0 && p.internal(n.Callee) {
				c := &objCells{fields: map[string]string{"fstrvalue": "empty", "fbinary": "empty"}, hasDt: true}
				if v, ok := st.val(n.Args[a]).exact(); ok {
					c.dtv = v
				} else {
					c.dt = st.res(n.Args[a])
				}
				cs0.obj[n.canon()] = c
				if v, ok := st.val(n.Args[a]).exact(); ok {
					// not one of the shared constants, unless those have its type
					for _, g := range d.live.consts {
						if k, ok := constKind(d.kinds, g); ok && k != v && k >= 0 {
							st.fact[eqKey(n.canon(), g)] = false
						}
					}
				}
				return true
			}
			if resetter(n.Callee) && p.internal(n.Callee) {
				c := cs0.cell(root(st, n.Args[0]))
				c.fields = map[string]string{"fstrvalue": "empty", "fbinary": "empty"}
				c.lost, c.hasDt, c.dt = false, true, nil
				if v, ok := st.val(n.Args[1]).exact(); ok {
					c.dtv = v
				} else {
					c.dt = st.res(n.Args[1])
				}
				return true
			}
			if isExtFn(n, "fmt.Errorf") || isExtFn(n, "errors.New") {
				st.fact[eqKey(n.canon(), ir.zero(n.Typ))] = false
				return true
			}
			if k, _, ok := addsMember(n.Callee); ok {
				if cs.key != "" && cs0.key == "" && cs0.item == "" {
					return true
				}
				if t, ok2 := w.slice(n.Args[k]); ok2 && cs0.key == "" {
					cs0.key = t.String()
				}
				return true
			}
			if isItemCall(p, n) {
				for i, q := range n.Callee.Params {
					if isByteSlice(q.Type()) && cs0.item == "" {
						cs0.item = "?"
						if t, ok := w.slice(n.Args[i]); ok {
							if t.base == "in" {
								cs0.item = t.off.String()
							} else {
								cs0.item = "?" + t.base
							}
						}
						break
					} else if isByteSlice(q.Type()) {
						if t, ok := w.slice(n.Args[i]); ok && t.base == "in" && known(t.String()) && !fl.unsure() {
							report(n, "a further element is read at %s bytes after the lead byte's position, not behind the element before it", t.off)
						}
						break
					}
				}
				return true
			}
			for _, a := range n.Args {
				if a.Typ == nil {
					continue
				}
				x := root(st, a)
				if isValuePtr(a.Typ) {
					if x.Op != OConst {
						c := cs0.cell(x)
						if p.internal(n.Callee) {
							*c = objCells{fields: map[string]string{"simpleV": "?", "fstrvalue": "?", "fbinary": "?", "ExtType": "?"}, lost: true}
						}
					}
				} else if _, ok := a.Typ.Underlying().(*types.Slice); ok {
					if o := payloadOf(ir, x); o != nil {
						cs0.cell(root(st, o)).fields["simpleV"] = "?"
					}
				}
			}
		case OReturn:
			if fl.unsure() {
				success++
				return false
			}
			var val, errv, tail *Node
			for i, a := range n.Args {
				t := d.f.Signature.Results().At(i).Type()
				switch {
				case isValuePtr(t):
					val = a
				case tname(t) == "error":
					errv = a
				case isByteSlice(t):
					tail = a
				}
			}
			if errv == nil {
				return false
			}
			if dbg {
				fmt.Println("RETURN", cs.label, p.pos(n.Pos), "err", st.nilState(errv), st.res(errv), "state", cs0.Key())
			}
			switch st.nilState(errv) {
			case 0:
				success++ // not known: no statement
				return false
			case -1:
				failures++
				someErr = n
				if d.done == nil {
					d.rejects(cs, st, w, func(f string, a ...interface{}) { report(n, f, a...) })
				}
				return false
			}
			success++
			if cs.want.kind == "error" {
				report(n, "is reserved, and yet decodes without an error here")
				return false
			}
			var o *Node
			if val != nil {
				o = root(st, val)
			} else {
				for i, q := range d.f.Params {
					if isValuePtr(q.Type()) {
						o = root(st, ir.Params[i])
					}
				}
			}
			if d.done != nil {
				if o != nil {
					d.done(cs, st, n, cs0, o, w, func(f string, a ...interface{}) { report(n, f, a...) })
				}
				return false
			}
			if o != nil {
				d.judge(cs, st, cs0, o, w, func(f string, a ...interface{}) { report(n, f, a...) })
			}
			if tail != nil && !(cs.want.kind == "map" || cs.want.kind == "array") {
				if t, ok := w.slice(tail); ok && (t.base == "in" || t.base == "empty") && known(t.String()) {
					end := linConst(cs.want.head)
					if cs.want.kind == "str" || cs.want.kind == "bin" || cs.want.kind == "ext" || cs.want.kind == "time" {
						end = end.add(cs.want.n, 1)
					}
					if t.base == "in" && !t.off.eq(end) && !(!cs.want.n.isConst() && t.off.eq(linConst(cs.want.head)) && d.emptyNow(st, w, cs.want.n)) {
						report(n, "the rest of the input handed back starts %s bytes after the lead byte's position, instead of %s", t.off, end)
					}
				}
			}
			return false
		}
		return true
	}
	fl.run()
	if fl.Too {
		d.r.count("cases with too many paths")
		return nil
	}
	if success == 0 && failures > 0 && cs.want.kind != "error" {
		report(someErr, "is an error on every path")
	}
	return bads
}

// emptyNow: the length read is known to be 0 on this path, or something is 0 that is not looked into and might be it.
func (d *decoding) emptyNow(st *FState, w *wire, want lin2) bool {
	var term string
	for k := range want.t {
		term = k
	}
	for n, v := range st.av {
		if v.hi > 0 || n.Op == OConst || !isIntType(n.Typ) {
			continue
		}
		save := st.av[n]
		delete(st.av, n)
		b, ok := w.bits(n)
		st.av[n] = save
		if ok && b.String() == term || !ok || !known(b.String()) && !d.trivialZero(st, n) {
			return true
		}
	}
	return false
}

// trivialZero: a constant handed on, or a loop's counter.
func (d *decoding) trivialZero(st *FState, n *Node) bool {
	if n.Op == OPhi {
		for _, a := range n.Args {
			if a = a.canon(); a.Op != OConst {
				if _, ok := stepOf(a, n); !ok {
					return false
				}
			}
		}
		return true
	}
	return st.res(n).Op == OConst
}

// payload names what is stored into the scalar payload.
func (d *decoding) payload(w *wire, x *Node, t types.Type) string {
	x = w.st.res(x)
	// an instant
	if x.Op == OConvert && isFloatType(x.Typ) {
		y := w.st.res(x.Args[0])
		if y.Op == OCall && y.Callee != nil && len(y.Args) == 1 && isFloatType(y.Typ) {
			x = y
		}
	}
	if x.Op == OCall && x.Callee != nil && len(x.Args) == 1 && !p_internal(d.p, x.Callee) {
		z := w.st.res(x.Args[0])
		if isExtFn(z, "time.Unix") {
			s, ok1 := w.bits(z.Args[0])
			n, ok2 := w.bits(z.Args[1])
			if ok1 && ok2 {
				return fmt.Sprintf("instant %s / %s", s, n)
			}
		}
	}
	if x.Op == OConvert && isFloatType(x.Typ) && isIntType(x.Args[0].Typ) {
		if b, ok := w.bits(x.Args[0]); ok && known(b.String()) {
			return tname(t.Underlying()) + " of the number " + b.String()
		}
	}
	if b, ok := w.bits(x); ok {
		return tname(t.Underlying()) + " " + b.String()
	}
	return "?"
}

func p_internal(p *Program, f *ssa.Function) bool { return p.internal(f) }

func (d *decoding) judge(cs decCase, st *FState, s *decState, o *Node, w *wire, report func(string, ...interface{})) {
	want := d.vt[cs.want.typ]
	c := s.obj[o]
	if k, ok := constKind(d.kinds, o); ok {
		d.r.count("successful paths judged")
		if k >= 0 && k != want {
			report("decodes to a value of type %s instead of %s", d.p.maskNames(1<<uint(k)), cs.want.typ)
		}
		return
	}
	if c == nil || c.lost || !c.hasDt {
		d.r.count("successful paths not followed")
		return
	}
	got := c.dtv
	if c.dt != nil {
		v, ok := st.val(c.dt).exact()
		if !ok {
			if m, ok := st.val(c.dt).asMask(); ok && m&(m-1) == 0 && m != 0 {
				for i := 0; i < 64; i++ {
					if m == 1<<uint(i) {
						v = int64(i)
					}
				}
			} else {
				d.r.count("successful paths not followed")
				return
			}
		}
		got = v
	}
	d.r.count("successful paths judged")
	if got != want {
		report("decodes to a value of type %s instead of %s", d.p.maskNames(1<<uint(got)), cs.want.typ)
		return
	}
	have := ""
	must := ""
	switch cs.want.kind {
	case "int":
		have, must = c.fields["simpleV"], "int64 "+cs.want.bits.String()
	case "float":
		have, must = c.fields["simpleV"], "float32 "+cs.want.bits.String()
	case "double":
		have, must = c.fields["simpleV"], "float64 "+cs.want.bits.String()
	case "time":
		have = c.fields["simpleV"]
		var sec, ns bitv
		in := func(off int64, wd int) bitv { return byteBits(inByte, off, wd, false, false) }
		switch cs.lead {
		case 0xd6:
			sec, ns = in(2, 32), constBits(0)
		case 0xd7:
			all := in(2, 64)
			for i := range sec {
				sec[i], ns[i] = "0", "0"
				if i < 34 {
					sec[i] = all[i]
				}
				if i+34 < 64 {
					ns[i] = all[i+34]
				}
			}
		default:
			ns, sec = in(3, 32), in(7, 64)
		}
		must = fmt.Sprintf("instant %s / %s", sec, ns)
		if have != "" && !strings.HasPrefix(have, "instant ") {
			have = "?"
		}
	case "str", "bin", "ext":
		f := "fbinary"
		if cs.want.kind == "str" {
			f = "fstrvalue"
		}
		have = c.fields[f]
		must = sliceTerm{base: "in", off: linConst(cs.want.head), n: cs.want.n, hasN: true}.String()
		if cs.want.n.isConst() && cs.want.n.c == 0 {
			must = "empty"
		}
		if have == "empty" && !cs.want.n.isConst() && d.emptyNow(st, w, cs.want.n) {
			return
		}
	case "array", "map":
		d.counts(cs, s, report)
		return
	default:
		return
	}
	if have == "" {
		report("decodes to a value of type %s whose content is not set on this path; it should be %s", cs.want.typ, must)
		return
	}
	d.r.sample(fmt.Sprintf("lead byte 0x%02x: %s = %s", cs.lead, cs.want.typ, have))
	if have != must && known(have) {
		report("decodes to a %s with the content %s; it should be %s", cs.want.typ, have, must)
	}
}

func (d *decoding) counts(cs decCase, s *decState, report func(string, ...interface{})) {
	must := cs.want.n.String()
	for k := range s.count {
		if known(k) && k != must {
			report("its loop over the elements makes %s rounds instead of %s", k, must)
		}
	}
	if s.item != "" && cs.item != "" && known(s.item) && s.item != cs.item && !(s.item == cs.item0 && (s.key == "empty" || s.key == "")) {
		report("its first element is read at %s bytes after the lead byte's position instead of %s", s.item, cs.item)
	}
	if s.key != "" && cs.key != "" && known(s.key) && s.key != cs.key && !(s.key == "empty" && strings.Contains(cs.key, "[")) {
		report("the first key is %s instead of %s", s.key, cs.key)
	}
	if len(s.count) == 0 && s.item == "" && cs.want.n.isConst() && cs.want.n.c > 0 {
		report("no element is read, although there are %s", must)
	}
}

// rejects: an error for want of bytes is only right when bytes are missing.
func (d *decoding) rejects(cs decCase, st *FState, w *wire, report func(string, ...interface{})) {
	need := linConst(cs.want.head)
	switch cs.want.kind {
	case "str", "bin", "ext", "time":
		need = need.add(cs.want.n, 1)
	case "int", "float", "double":
	default:
		return
	}
	worst, found := int64(0), false
	// LEN - need <= k
	see := func(l lin2, k int64) {
		// l <= k; l = LEN - T + c
		if l.t["LEN"] != 1 {
			return
		}
		diff := l.add(linTerm("LEN"), -1).add(need, 1)
		if !diff.isConst() {
			// a bound that does not speak of the length read
			r := l.add(linTerm("LEN"), -1)
			if r.isConst() && k-r.c+1 <= need.c && !need.isConst() {
				found, worst = true, -1<<40 // less than the head already
			}
			return
		}
		v := k - diff.c
		if !found || v < worst {
			found, worst = true, v
		}
	}
	rel := func(op token.Token, a, b *Node) {
		l := w.lin(a).add(w.lin(b), -1)
		neg := linConst(0).add(l, -1)
		switch op {
		case token.LSS:
			see(l, -1)
		case token.LEQ:
			see(l, 0)
		case token.GTR:
			see(neg, -1)
		case token.GEQ:
			see(neg, 0)
		}
	}
	neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}
	for k, v := range st.fact {
		if k.b == nil || !isIntType(k.a.Typ) {
			continue
		}
		op := k.op
		if op == token.EQL {
			if v {
				rel(token.LEQ, k.a, k.b)
				rel(token.GEQ, k.a, k.b)
			}
			continue
		}
		if !v {
			op = neg[op]
		}
		rel(op, k.a, k.b)
	}
	for n, v := range st.av {
		if n.Op == OBuiltin && n.Name == "len" && v.hi != inf {
			if t, ok := w.slice(n.Args[0]); ok && t.hasN {
				see(t.n, v.hi)
			}
		}
	}
	// on this path LEN - need <= worst; it must be below 0
	if found && worst >= 0 {
		report("is rejected for missing bytes although %s bytes, which are all of it, may be there", need)
	}
}
