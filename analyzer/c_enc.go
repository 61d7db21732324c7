package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What an encoder has written on a path: a sequence of bytes (bit by bit), pieces of text or binary, items written by a
// recursive call, and rounds of a loop.

type seg struct {
	kind string // byte, bytes, rec, rounds, ?
	bits [8]string
	t    sliceTerm
	n    lin2   // size (bytes), or number of rounds
	per  string // rounds: what each wrote
	id   string
	node *Node // what was encoded by the recursive call; where the rest was written
	pos  token.Pos
	frm  *Frame
}

func (s seg) String() string {
	switch s.kind {
	case "byte":
		var b bitv
		copy(b[:8], s.bits[:])
		for i := 8; i < 64; i++ {
			b[i] = "0"
		}
		return "<" + strings.TrimSuffix(b.String(), " 0*56") + ">"
	case "bytes":
		return s.t.String()
	case "rounds":
		return "rounds(" + s.n.String() + "," + s.per + "," + s.id + ")"
	}
	return s.kind + s.id
}

func (s seg) size() lin2 {
	switch s.kind {
	case "byte":
		return linConst(1)
	case "bytes":
		return s.t.n
	}
	return linTerm("|" + s.kind + s.id + "|")
}

type encState struct {
	outs  map[*Node][]seg
	cells map[*Node]map[int64]seg
	entry map[*Node][]seg
	aux   map[string]string
	e     *encoding
	json  *jsonEnc
}

func newEncState(e *encoding) *encState {
	return &encState{e: e, outs: map[*Node][]seg{}, cells: map[*Node]map[int64]seg{}, entry: map[*Node][]seg{}, aux: map[string]string{}}
}

func segsKey(ss []seg) string {
	var out []string
	for _, s := range ss {
		out = append(out, s.String())
	}
	return strings.Join(out, " ")
}

func (s *encState) Key() string {
	var out []string
	for n, x := range s.outs {
		out = append(out, fmt.Sprintf("o%d %s", n.ID, segsKey(x)))
	}
	for n, x := range s.entry {
		out = append(out, fmt.Sprintf("e%d %s", n.ID, segsKey(x)))
	}
	for n, m := range s.cells {
		for k, v := range m {
			out = append(out, fmt.Sprintf("c%d[%d]%s", n.ID, k, v))
		}
	}
	for k, v := range s.aux {
		out = append(out, "a"+k+"="+v)
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

func (s *encState) Clone() CState {
	n := newEncState(s.e)
	n.json = s.json
	for k, v := range s.outs {
		n.outs[k] = v
	}
	for k, v := range s.entry {
		n.entry[k] = v
	}
	for k, v := range s.aux {
		n.aux[k] = v
	}
	for k, m := range s.cells {
		c := map[int64]seg{}
		for i, v := range m {
			c[i] = v
		}
		n.cells[k] = c
	}
	return n
}

// encoding looks at one function that encodes a value.
type encoding struct {
	rule    string
	through map[*ssa.Function]bool // encoders that are inlined all the same
	heads   map[*Block]*Cover
	wrote   map[*Block]bool
	notes   map[string]func() // what is wrong with a round of a loop
	p       *Program
	r       *Result
	f       *ssa.Function
	ir      *IR
	live    *Flow
	dst     *Node
	val     *Node
	trips   map[*Node]*trip
	srcs    map[string][]*Node
	names   map[*Node]string
	fl      *Flow
	uses    map[*Node][]*Node
	// round judges what a round of a loop wrote; it names it
	round func(e *encoding, w *wire, ss []seg, at *Node) string
}

// isEncoder: takes what was written so far and a value, and returns what is written then.
func isEncoder(f *ssa.Function) (dst, val int, ok bool) {
	dst, val = -1, -1
	rs := f.Signature.Results()
	if rs.Len() < 1 || !isByteSlice(rs.At(0).Type()) {
		return
	}
	for i, q := range f.Params {
		if isByteSlice(q.Type()) && dst < 0 {
			dst = i
		}
		if isValuePtr(q.Type()) && val < 0 {
			val = i
		}
	}
	return dst, val, dst >= 0 && val >= 0
}

func (e *encoding) isRec(n *Node) (dst, val *Node, ok bool) {
	if n.Op != OCall || n.Callee == nil || !e.p.internal(n.Callee) || len(n.Callee.Blocks) == 0 {
		return
	}
	d, v, ok := isEncoder(n.Callee)
	if !ok || !e.p.inCycle[n.Callee] || len(n.Args) <= d || len(n.Args) <= v {
		return nil, nil, false
	}
	return n.Args[d], n.Args[v], true
}

func (e *encoding) build(lim int) bool {
	p, f := e.p, e.f
	di, vi, ok := isEncoder(f)
	if !ok {
		return false
	}
	mid := inlineUpTo(lim)
	pol := func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if !p.internal(g) || g.Signature.Results().Len() == 0 {
			return false
		}
		if _, _, ok := isEncoder(g); ok && p.inCycle[g] {
			if !e.through[g] || g == f {
				return false
			}
			for _, h := range stack {
				if h == g {
					return false
				}
			}
			return true
		}
		return mid(ir, g, depth, stack)
	}
	ir := p.buildIR(f, pol)
	p.alias()
	ir.promote()
	e.ir = ir
	e.dst, e.val = ir.Params[di].canon(), ir.Params[vi].canon()
	e.trips = tripsOf(ir)
	e.srcs, e.names = map[string][]*Node{}, map[*Node]string{}
	fl := &Flow{IR: ir}
	fl.prepare()
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OPhi && n.Typ != nil && (isByteSlice(n.Typ) || isString(n.Typ) || isIntType(n.Typ) || isFloatType(n.Typ) || isValuePtr(n.Typ)) {
				fl.Keep(n)
			}
			if n.Typ != nil && (n.Op == OLoad || n.Op == OCall || n.Op == OBuiltin && n.Name == "len") && isIntType(n.Typ) {
				fl.Keep(n.canon())
			}
			if n.Op == OBin && len(n.Args) == 2 && isBoolNode(n) && isIntType(n.Args[0].Typ) {
				fl.Keep(n.Args[0].canon(), n.Args[1].canon())
			}
		}
	}
	for _, t := range e.trips {
		fl.Keep(t.init, t.bound)
	}
	fl.Keep(e.val)
	e.live = fl
	return true
}

func (e *encoding) name(w *wire, n *Node) string {
	if s, ok := e.names[n]; ok {
		return s
	}
	nm := ""
	switch {
	case n.Op == OBin && (n.Tok == token.ADD || n.Tok == token.SUB) && isIntType(n.Typ), n.Op == OBuiltin && n.Name == "len":
		// sums are named by what they are the sum of: they may differ from path to path
		s := "(" + w.lin(n).String() + ")"
		e.source(s, n)
		return s
	case n.Op == OInit || n.Op == OLoad || n.Op == OHavoc:
		var l Loc
		if n.Op == OLoad {
			l = e.ir.loc(n.Args[0])
		} else if n.MemLoc != nil {
			l = *n.MemLoc
		}
		q := ""
		if n.Op != OInit || l.Root == nil {
			q = "?"
		}
		if l.Class != "" && l.Root != nil {
			p := ""
			if i := strings.IndexByte(l.Path, '#'); i >= 0 {
				p = l.Path[i:]
			}
			nm = fmt.Sprintf("%s{%s%s}%d", q, l.Class, p, n.ID)
		}
	case n.Op == OCall && n.Callee != nil:
		nm = fmt.Sprintf("{%s}%d", fnName(n.Callee), n.ID)
		if !e.p.internal(n.Callee) {
			nm = fmt.Sprintf("{%s}%d", n.Callee.String(), n.ID)
		}
	case n.Op == OBuiltin && n.Name == "cap":
		nm = fmt.Sprintf("{cap}%d", n.ID)
	case n.Op == OBin && isIntType(n.Typ) && (n.Tok == token.MUL || n.Tok == token.QUO || n.Tok == token.REM):
		nm = fmt.Sprintf("{%s}%d", n.Tok, n.ID)
	case n.Op == OConvert:
		nm = fmt.Sprintf("{convert}%d", n.ID)
	}
	if nm != "" {
		e.source(nm, n)
		e.names[n] = nm
	}
	return nm
}

func (e *encoding) source(s string, n *Node) {
	for _, m := range e.srcs[s] {
		if m == n {
			return
		}
	}
	e.srcs[s] = append(e.srcs[s], n)
}

// src: the node of a name, and what is known of its value on this path.
func (e *encoding) src(st *FState, s string) (*Node, AV) {
	l := e.srcs[s]
	if len(l) == 0 {
		return nil, AV{}
	}
	if len(l) == 1 || !strings.HasPrefix(s, "(") {
		return l[0], st.val(l[0])
	}
	w := e.wire(st)
	var n *Node
	var v AV
	for _, m := range l {
		if e.name(w, m) != s {
			continue
		}
		if x := st.val(m); n == nil {
			n, v = m, x
		} else {
			v = v.meet(x)
		}
	}
	if n == nil {
		return l[0], typeRange(l[0].Typ)
	}
	return n, v
}

func (e *encoding) wire(st *FState) *wire {
	w := &wire{ir: e.ir, st: st}
	w.name = func(n *Node) string { return e.name(w, n) }
	es := st.C.(*encState)
	w.at = func(n *Node) (sliceTerm, bool) {
		if ss, ok := es.outs[n]; ok {
			sz := linTerm("D")
			for _, s := range ss {
				sz = sz.add(s.size(), 1)
			}
			return sliceTerm{base: fmt.Sprintf("out#%d", n.ID), n: sz, hasN: true}, true
		}
		if n.Op == OMakeSlice {
			return sliceTerm{base: fmt.Sprintf("mem#%d", n.ID), n: w.lin(n.Args[0]), hasN: true}, true
		}
		if n.Op == OSlice {
			// the whole of an array
			a := st.res(n.Args[0])
			if pt, ok := a.Typ.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					lo, hi := linConst(0), linConst(at.Len())
					i := 1
					if n.Lo {
						lo = w.lin(n.Args[i])
						i++
					}
					if n.Hi {
						hi = w.lin(n.Args[i])
					}
					if a.Op == OAlloc {
						return sliceTerm{base: fmt.Sprintf("mem#%d", a.ID), off: lo, n: hi.add(lo, -1), hasN: true}, true
					}
					if l := e.ir.loc(a); l.Class != "" {
						return sliceTerm{base: fmt.Sprintf("{%s}%d", l.Class, a.ID), off: lo, n: hi.add(lo, -1), hasN: true}, true
					}
				}
			}
		}
		return sliceTerm{}, false
	}
	w.num = func(n *Node) (bitv, bool) {
		switch {
		case isExtFn(n, "math.NaN"):
			return constBits(int64(math.Float64bits(math.NaN()))), true
		case isExtFn(n, "math.Inf"):
			v, ok := st.val(n.Args[0]).exact()
			if !ok {
				return bitv{}, false
			}
			return constBits(int64(math.Float64bits(math.Inf(int(v))))), true
		}
		return bitv{}, false
	}
	return w
}

func memNode(base string, ir *IR) *Node {
	if i := strings.IndexByte(base, '#'); i > 0 && (strings.HasPrefix(base, "mem#") || strings.HasPrefix(base, "out#")) {
		if id, err := strconv.Atoi(base[i+1:]); err == nil {
			return ir.byID(id)
		}
	}
	return nil
}

func byteSeg(b bitv, n *Node) seg {
	s := seg{kind: "byte", pos: n.Pos, frm: n.Frame, node: n}
	copy(s.bits[:], b[:8])
	return s
}

func constSegs(s string, n *Node) []seg {
	var out []seg
	for i := 0; i < len(s); i++ {
		out = append(out, byteSeg(constBits(int64(s[i])), n))
	}
	return out
}

// content: the bytes that a slice or text is, on this path.
func (e *encoding) content(w *wire, x *Node, at *Node, d int) []seg {
	x = w.st.res(x)
	es := w.st.C.(*encState)
	if ss, ok := es.outs[x]; ok {
		return ss
	}
	un := []seg{{kind: "?", id: fmt.Sprint(x.ID), node: x, pos: at.Pos, frm: at.Frame}}
	if d > 20 || x.Typ == nil {
		return un
	}
	if x.Op == OConst {
		if x.IsNil {
			return nil
		}
		if x.Const != nil && x.Const.Kind() == constant.String {
			return constSegs(constant.StringVal(x.Const), at)
		}
	}
	if x.Op == OConvert || isExtFn(x, "DxCommonLib.FastByte2String", "DxCommonLib.FastString2Byte") || x.Op == OCall && x.Callee != nil && (x.Callee.Name() == "FastByte2String" || x.Callee.Name() == "FastString2Byte") {
		return e.content(w, x.Args[0], at, d+1)
	}
	t, ok := w.slice(x)
	if !ok || !t.hasN {
		return un
	}
	if t.base == "empty" || t.n.isConst() && t.n.c == 0 {
		return nil
	}
	if m := memNode(t.base, e.ir); m != nil && strings.HasPrefix(t.base, "mem#") {
		if c, ok := es.cells[m]; ok && t.off.isConst() && t.n.isConst() && t.n.c <= 64 {
			var out []seg
			for k := t.off.c; k < t.off.c+t.n.c; k++ {
				s, ok := c[k]
				if !ok {
					s = byteSeg(constBits(0), at)
				}
				if s.kind == "?" {
					s := seg{kind: "bytes", t: t, pos: at.Pos, frm: at.Frame, node: x}
					s.t.base = "?" + s.t.base
					return []seg{s}
				}
				out = append(out, s)
			}
			return out
		}
		s := seg{kind: "bytes", t: t, pos: at.Pos, frm: at.Frame, node: x}
		s.t.base = "?" + s.t.base
		return []seg{s}
	}
	return []seg{{kind: "bytes", t: t, pos: at.Pos, frm: at.Frame, node: x}}
}

// spot: the place in what was written, or in local memory, that the first byte of a slice is.
func (e *encoding) spot(w *wire, x *Node) (m *Node, off lin2, ok bool) {
	t, ok := w.slice(x)
	if !ok {
		return
	}
	m = memNode(t.base, e.ir)
	off = t.off
	if m != nil && strings.HasPrefix(t.base, "out#") {
		off = off.add(linTerm("D"), -1)
	}
	return m, off, m != nil
}

// put overwrites bytes.
func (e *encoding) put(w *wire, m *Node, off lin2, ss []seg) {
	es := w.st.C.(*encState)
	if c, ok := es.cells[m]; ok {
		if !off.isConst() {
			es.cells[m] = map[int64]seg{}
			delete(es.cells, m)
			return
		}
		for i, s := range ss {
			c[off.c+int64(i)] = s
		}
		return
	}
	old, ok := es.outs[m]
	if !ok {
		return
	}
	cum := linConst(0)
	for i := range old {
		if cum.eq(off) && i+len(ss) <= len(old) {
			ok := true
			for j := range ss {
				if old[i+j].kind != "byte" || ss[j].kind != "byte" {
					ok = false
				}
			}
			if ok {
				n := append([]seg{}, old...)
				copy(n[i:], ss)
				es.outs[m] = n
				return
			}
		}
		cum = cum.add(old[i].size(), 1)
	}
	n := append([]seg{}, old...)
	for i := range n {
		n[i] = seg{kind: "?", id: "w", pos: n[i].pos, frm: n[i].frm, node: n[i].node}
	}
	es.outs[m] = n
}

func (s *encState) Prune(keep func(*Node) bool) {
	for n := range s.cells {
		if !keep(n) && n.Op == OAlloc {
			// its slice may still be appended
			continue
		}
	}
}

// joinRounds: what the rounds of a loop write, each kind of round once.
func joinRounds(a, b string) string {
	in := map[string]bool{}
	for _, x := range strings.Split(a+","+b, ",") {
		in[x] = true
	}
	var out []string
	for x := range in {
		out = append(out, x)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func (s *encState) Reenter(st *FState, gone func(*Node) bool, phis map[*Node]*Node) {
	if s.json != nil {
		s.json.reenter(s, st, gone, phis)
		return
	}
	newOuts := map[*Node][]seg{}
	for phi, v := range phis {
		if phi.Typ == nil || !isByteSlice(phi.Typ) || phi.Op != OPhi {
			continue
		}
		if !gone(phi) {
			if phi.Blk != nil && phi.Blk.isLoopHeader() {
				if x, ok := s.outs[v]; ok {
					s.entry[phi] = x
				} else {
					delete(s.entry, phi)
				}
			}
			continue
		}
		x, ok := s.outs[v]
		base, ok2 := s.entry[phi]
		if !ok || !ok2 || len(x) < len(base) || segsKey(x[:len(base)]) != segsKey(base) {
			delete(s.entry, phi)
			newOuts[phi] = nil
			continue
		}
		lid := fmt.Sprint("L", phi.Blk.ID)
		round := x[len(base):]
		per := "?"
		if s.e.round != nil {
			per = s.e.round(s.e, s.e.wire(st), round, phi)
		}
		pre := base
		if k := len(pre); k > 0 && pre[k-1].kind == "rounds" && pre[k-1].id == lid {
			pp := pre[k-1].per
			if pp != "" {
				per = joinRounds(pp, per)
			}
			pre = pre[:k-1]
		}
		n := append(append([]seg{}, pre...), seg{kind: "rounds", id: lid, per: per, n: linTerm("?" + lid), node: phi, pos: phi.Pos, frm: phi.Frame})
		s.entry[phi] = n
		newOuts[phi] = n
		if !gone(v) && v != phi {
			newOuts[v] = n // nothing was written: the head's join still stands for what it was
		}
	}
	for n := range phis {
		if gone(n) && n.Op == OPhi && n.Blk != nil && n.Blk.isLoopHeader() {
			delete(s.aux, "element")
		}
	}
	for n := range s.outs {
		if gone(n) {
			delete(s.outs, n)
		}
	}
	for n := range s.cells {
		if gone(n) {
			delete(s.cells, n)
		}
	}
	for n, x := range newOuts {
		if x != nil {
			s.outs[n] = x
		}
	}
}

func (e *encoding) step(st *FState, n *Node) {
	es := st.C.(*encState)
	w := e.wire(st)
	switch n.Op {
	case OAlloc:
		if pt, ok := n.Typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					es.cells[n] = map[int64]seg{}
				}
			}
		}
	case OMakeSlice:
		if isByteSlice(n.Typ) {
			if v, ok := st.val(n.Args[0]).exact(); ok && v == 0 {
				es.outs[n] = nil
			} else {
				es.cells[n] = map[int64]seg{}
			}
		}
	case OStore:
		a := st.res(n.Args[0])
		if a.Op != OIndexAddr || n.Args[1].Typ == nil {
			return
		}
		if bw, _, ok := intBits(n.Args[1].Typ); !ok || bw != 8 {
			return
		}
		b, ok := w.bits(n.Args[1])
		s := seg{kind: "?", id: fmt.Sprint(n.ID), pos: n.Pos, frm: n.Frame, node: n}
		if ok {
			s = byteSeg(b, n)
		}
		x := st.res(a.Args[0])
		if x.Op == OAlloc {
			e.put(w, x, w.lin(a.Args[1]), []seg{s})
			return
		}
		if m, off, ok := e.spot(w, x); ok {
			e.put(w, m, off.add(w.lin(a.Args[1]), 1), []seg{s})
		}
	case OBuiltin:
		switch n.Name {
		case "append":
			if !isByteSlice(n.Typ) {
				return
			}
			old, ok := es.outs[st.res(n.Args[0])]
			if !ok {
				// a part of what was written
				x := st.res(n.Args[0])
				if x.Op == OSlice && st.res(x.Args[0]).Op == OAlloc && len(e.content(w, x, n, 0)) == 0 {
					old, ok = nil, true
				}
				if x.Op == OConst && x.IsNil || x.Op == OMakeSlice && len(e.content(w, x, n, 0)) == 0 {
					old, ok = nil, true
				}
			}
			if !ok {
				delete(es.outs, n)
				return
			}
			r := append([]seg{}, old...)
			if len(n.Args) > 1 {
				for _, s := range e.content(w, n.Args[1], n, 0) {
					s.pos, s.frm = n.Pos, n.Frame
					r = append(r, s)
				}
			}
			es.outs[n] = r
		case "copy":
			if m, off, ok := e.spot(w, n.Args[0]); ok {
				ss := e.content(w, n.Args[1], n, 0)
				for _, s := range ss {
					if s.kind != "byte" {
						ss = []seg{{kind: "?"}}
						if c := es.cells[m]; c != nil {
							for k := int64(0); k < 64; k++ {
								c[k] = seg{kind: "?"}
							}
							return
						}
						break
					}
				}
				e.put(w, m, off, ss)
			}
		}
	case OCall:
		if n.Callee == nil {
			return
		}
		if op, wd, little, ok := endianCall(n.Callee); ok && op != "Uint" {
			k := len(n.Args) - 2
			b, ok := w.bits(n.Args[k+1])
			var ss []seg
			for i := 0; i < wd/8; i++ {
				at := wd/8 - 1 - i
				if little {
					at = i
				}
				s := seg{kind: "?", id: fmt.Sprint(n.ID, ".", i), pos: n.Pos, frm: n.Frame, node: n}
				if ok {
					var x bitv
					copy(x[:8], b[at*8:at*8+8])
					s = byteSeg(x, n)
				}
				ss = append(ss, s)
			}
			if op == "PutUint" {
				if m, off, ok := e.spot(w, n.Args[k]); ok {
					e.put(w, m, off, ss)
				}
			} else if old, ok := es.outs[st.res(n.Args[k])]; ok {
				es.outs[n] = append(append([]seg{}, old...), ss...)
			}
			return
		}
		if d, v, ok := e.isRec(n); ok {
			if old, ok := es.outs[st.res(d)]; ok {
				es.outs[n] = append(append([]seg{}, old...), seg{kind: "rec", id: fnName(n.Callee), node: st.res(v), pos: n.Pos, frm: n.Frame})
			} else {
				delete(es.outs, n)
			}
			return
		}
		if isByteSlice(n.Typ) && n.Callee.Pkg != nil && strings.HasPrefix(n.Callee.Name(), "Append") {
			if old, ok := es.outs[st.res(n.Args[0])]; ok {
				es.outs[n] = append(append([]seg{}, old...), seg{kind: "?", id: fmt.Sprint(n.ID), pos: n.Pos, frm: n.Frame, node: n})
			}
			return
		}
		if isExtFn(n, "(time.Time).Nanosecond") {
			st.set(n, AV{lo: 0, hi: 999999999})
		}
		for _, a := range n.Args {
			if a.Typ != nil && isByteSlice(a.Typ) && n.Typ != nil && isByteSlice(n.Typ) {
				delete(es.outs, n)
			}
		}
	}
}

// left: a loop is left after all its rounds.
func (e *encoding) left(st *FState, iff *Node) {
	tr := e.trips[iff]
	if tr == nil {
		return
	}
	v, ok := st.decide(iff.Args[0], 0)
	if !ok || v == tr.in {
		return
	}
	es := st.C.(*encState)
	w := e.wire(st)
	h := tr.loop.Header
	lid := fmt.Sprint("L", h.ID)
	n := tr.rounds(w)
	for _, phi := range h.Nodes {
		if phi.Op != OPhi || !isByteSlice(phi.Typ) {
			continue
		}
		k := st.res(phi)
		x, ok := es.outs[k]
		if !ok {
			continue
		}
		x = append([]seg{}, x...)
		if m := len(x); m > 0 && x[m-1].kind == "rounds" && x[m-1].id == lid {
			x[m-1].n = n
		} else {
			x = append(x, seg{kind: "rounds", id: lid, n: n, node: phi, pos: phi.Pos, frm: phi.Frame})
		}
		es.outs[k] = x
	}
}

// norm: a bit, as far as the range of the number it is of determines it; zero holds further bits that are known.
func (e *encoding) norm(st *FState, s string, known map[string]string) string {
	if v, ok := known[s]; ok {
		return v
	}
	if a, op, b, ok := splitMix(s); ok {
		x, y := e.norm(st, a, known), e.norm(st, b, known)
		switch op {
		case "|":
			switch {
			case x == "0":
				return y
			case y == "0" || x == y:
				return x
			case x == "1" || y == "1":
				return "1"
			}
		case "&":
			switch {
			case x == "1":
				return y
			case y == "1" || x == y:
				return x
			case x == "0" || y == "0":
				return "0"
			}
		}
		return mixBits(x, op, y)
	}
	src, k, ok := splitBit(s)
	if !ok {
		return s
	}
	n, v := e.src(st, src)
	if n == nil || !isIntType(n.Typ) {
		return s
	}
	if v.lo >= 0 {
		if k < 63 && v.hi < 1<<uint(k) || k == 63 {
			return "0"
		}
		return s
	}
	if v.hi < 0 && k < 63 && v.lo >= -1<<uint(k) {
		return "1"
	}
	if v.hi < 0 && k == 63 {
		return "1"
	}
	if k < 63 && v.lo >= -1<<uint(k) && v.hi < 1<<uint(k) {
		return src + ":63"
	}
	return s
}

func splitMix(s string) (a, op, b string, ok bool) {
	if !strings.HasPrefix(s, "(") || !strings.HasSuffix(s, ")") {
		return
	}
	depth := 0
	for i := 1; i < len(s)-1; i++ {
		switch s[i] {
		case '(', '{':
			depth++
		case ')', '}':
			depth--
		}
		if depth == 0 && i+2 < len(s)-1 && s[i] == ' ' && (s[i+1] == '|' || s[i+1] == '&') && s[i+2] == ' ' {
			return s[1:i], s[i+1 : i+2], s[i+3 : len(s)-1], true
		}
	}
	return
}

// knownBits: the bits that what was found equal to a constant on this path determines.
func (e *encoding) knownBits(st *FState) map[string]string {
	w := e.wire(st)
	out := map[string]string{}
	var learn func(s, v string)
	learn = func(s, v string) {
		if a, op, b, ok := splitMix(s); ok {
			if op == "|" && v == "0" || op == "&" && v == "1" {
				learn(a, v)
				learn(b, v)
			}
			return
		}
		if _, _, ok := splitBit(s); ok {
			out[s] = v
		}
	}
	for n, av := range st.av {
		c, ok := av.exact()
		if !ok || n.Op == OConst || n.Typ == nil || !isIntType(n.Typ) {
			continue
		}
		delete(st.av, n)
		b, ok := w.bits(n)
		st.av[n] = av
		if !ok {
			continue
		}
		for i := range b {
			v := "0"
			if c>>uint(i)&1 != 0 {
				v = "1"
			}
			learn(b[i], v)
		}
	}
	return out
}

// equations: sums that are known to be 0 on this path.
func (e *encoding) equations(st *FState) []lin2 {
	w := e.wire(st)
	var out []lin2
	for n, av := range st.av {
		c, ok := av.exact()
		if !ok || n.Op == OConst || n.Typ == nil || !isIntType(n.Typ) {
			continue
		}
		delete(st.av, n)
		l := w.lin(n).add(linConst(c), -1)
		st.av[n] = av
		if !l.isConst() {
			out = append(out, l)
		}
	}
	for k, v := range st.fact {
		if v && k.op == token.EQL && k.b != nil && k.a.Typ != nil && isIntType(k.a.Typ) {
			if l := w.lin(k.a).add(w.lin(k.b), -1); !l.isConst() {
				out = append(out, l)
			}
		}
	}
	return out
}

// same: 1 equal, -1 known to be different, 0 not known.
func (e *encoding) same(st *FState, a, b lin2) int {
	d := a.add(b, -1)
	if d.isConst() && d.c == 0 {
		return 1
	}
	eqs := e.equations(st)
	for _, q := range eqs {
		for _, k := range []int64{1, -1} {
			if x := d.add(q, k); x.isConst() {
				if x.c == 0 {
					return 1
				}
				return -1
			}
		}
	}
	if d.isConst() {
		return -1
	}
	if len(eqs) > 0 {
		for _, q := range eqs {
			for t := range d.t {
				if q.t[t] != 0 {
					return 0
				}
			}
		}
	}
	if !known(d.String()) || strings.Contains(d.String(), "|rounds") || strings.Contains(d.String(), "|rec") {
		return 0
	}
	// two terms of which neither is part of the other
	return -1
}
