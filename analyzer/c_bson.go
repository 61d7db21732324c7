package main

import (
	"fmt"
	"go/token"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: what is written for a value in BSON is what the specification (and the decoder) read for the element type byte.

func init() {
	register("C15", (*Check).bson)
}

// bsonTypes: the element types that a type of value may be written as.
var bsonTypes = map[string][]int64{
	"VT_Object": {3}, "VT_Array": {4}, "VT_String": {2}, "VT_RawString": {2}, "VT_Int": {0x10, 0x12, 0x11}, "VT_Float": {1}, "VT_Double": {1},
	"VT_DateTime": {9}, "VT_Binary": {5, 7, 0x13}, "VT_ExBinary": {5}, "VT_NULL": {0x0a}, "VT_True": {8}, "VT_False": {8}, "VT_NAN": {1}, "VT_INF": {1},
}

// bsonSizes: the payloads of a fixed size.
var bsonSizes = map[int64]int64{1: 8, 6: 0, 7: 12, 8: 1, 9: 8, 0x0a: 0, 0x10: 4, 0x11: 8, 0x12: 8, 0x13: 16, 0x7f: 0, 0xff: 0}

func (c *Check) bson() *Result {
	r := newResult()
	r.Min = 40
	r.Rules = []string{
		"encoder: for each function that writes a document, each kind of document and each type an element may have, on each path: a document is its own length as little-endian int32, one element for each round of the loop over the content, and a zero byte; an element is a type byte that is one of the value's type, a key that ends in a zero byte, and the payload that the BSON specification lays down for that type byte, whose number is bit for bit the value's and whose length is the number of bytes that follow",
		"decoder: for each element type byte, on each successful path: the payload is read with the width, order, sign and length of the specification, and what is said to be consumed is its size",
	}
	r.Assumptions = []string{"documents of 2^31 bytes and more, and keys with NUL, are outside", "a recursive call writes one document (which is what is shown for each encoder)"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	var all []*bsonEnc
	for _, f := range p.encoders("bson") {
		e := &bsonEnc{encoding: &encoding{p: p, r: r, f: f, rule: "bson output"}, writes: map[string]bool{}}
		if !e.build(900) {
			continue
		}
		r.Functions[fnName(f)] = true
		e.run()
		all = append(all, e)
	}
	c.bsonDecoding(r)
	// a document that is written by a function that writes the other kind
	about := map[string]*bsonEnc{}
	for _, e := range all {
		about[fnName(e.f)] = e
	}
	for _, e := range all {
		for _, q := range e.recs {
			g := about[q.seg.id]
			if g == nil || len(g.writes) != 1 {
				continue
			}
			r.count("nested documents")
			want := map[string]string{"VT_Object": "VObject.strkvs", "VT_Array": "DxValue.farr"}[q.tn]
			if want != "" && !g.writes[want] {
				fn := fnName(e.f)
				if q.seg.frm != nil {
					fn = q.seg.frm.chain(p)
				}
				r.bad(p, "bson output", q.seg.pos, fn, "a value of type %s is written by %s, which writes another kind of document", q.tn, q.seg.id)
			}
		}
	}
	return r
}

type bsonRec struct {
	tn  string
	seg seg
}

type bsonEnc struct {
	*encoding
	writes map[string]bool // what the loop over the content goes over
	recs   []bsonRec
}

func (e *bsonEnc) run() {
	p, ir, r := e.p, e.ir, e.r
	vt := p.valueTypes()
	var names []string
	for n := range vt {
		if len(bsonTypes[n]) > 0 {
			names = append(names, n)
		}
	}
	sort.Slice(names, func(i, j int) bool { return vt[names[i]] < vt[names[j]] })
	seen := map[string]bool{}
	e.notes = map[string]func(){}
	isType := func(n *Node) (root, ok bool) {
		if n.Op != OLoad || n.Typ == nil || tname(n.Typ) != "ValueType" {
			return
		}
		l := ir.loc(n.Args[0])
		if l.Root == nil || l.Class != "DxValue.DataType" || n.canon().Op == OHavoc {
			return
		}
		return l.Root.canon() == e.val, true
	}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OLoad {
				if l := ir.loc(n.Args[0]); l.Root != nil && l.Root.canon() == e.val && (l.Class == "VObject.strkvs" || l.Class == "DxValue.farr") {
					e.writes[l.Class] = true
				}
			}
		}
	}
	asks := false
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if root, ok := isType(n); ok && root {
				asks = true
			}
		}
	}
	roots := []string{"VT_Object"}
	if asks {
		roots = []string{"VT_Object", "VT_Array"}
	}
	for _, root := range roots {
		for _, tn := range names {
			if o := os.Getenv("DXT"); o != "" && o != tn {
				continue
			}
			e.round = func(e1 *encoding, w *wire, ss []seg, at *Node) string {
				note := ""
				say := e.sayer(seen, "")
				x := &encCtx{e: e.encoding, st: w.st, w: w, kb: e.knownBits(w.st), little: true, say: func(s seg, f string, a ...interface{}) {
					if note != "" || e.fl.unsure() {
						return
					}
					m := fmt.Sprintf(f, a...)
					note = fmt.Sprintf("!%s/%d", strings.ReplaceAll(m, ",", ";"), s.pos)
					if e.notes[note] == nil {
						e.notes[note] = func() { say(s, "%s", m) }
					}
				}}
				el := w.st.C.(*encState).aux["element"]
				out := e.element(x, ss, el, at)
				if note != "" {
					return note
				}
				return out
			}
			init := newEncState(e.encoding)
			init.outs[e.dst] = nil
			fl := &Flow{IR: ir, Max: 64, Init: init, live: e.live.live, consts: e.live.consts, counted: e.live.counted, Limit: 40000}
			e.fl = fl
			fl.Edge = e.left
			fl.Step = func(st *FState, n *Node) bool {
				if isRoot, ok := isType(n); ok {
					t := vt[tn]
					if isRoot {
						t = vt[root]
					} else {
						st.C.(*encState).aux["element"] = tn
					}
					return st.set(n, AV{lo: t, hi: t})
				}
				if n.Op == OReturn {
					if fl.unsure() {
						r.count("joined paths, not judged")
						return false
					}
					e.document(st, n, root, seen)
					return false
				}
				e.step(st, n)
				return true
			}
			fl.run()
			r.count("types of element analysed")
			if fl.Too {
				r.count("types with too many paths")
			}
		}
	}
}

// little reads k bytes, the lowest first.
func (x *encCtx) field(ss []seg, k int) (bitv, bool) {
	var b bitv
	if len(ss) < k {
		return b, false
	}
	for i := range b {
		b[i] = "0"
	}
	for i := 0; i < k; i++ {
		s := ss[i]
		if s.kind != "byte" {
			return b, false
		}
		for j := 0; j < 8; j++ {
			b[8*i+j] = x.bit(s.bits[j])
		}
	}
	return b, true
}

// constByte: the value of a byte that is known.
func (x *encCtx) constByte(s seg) (int64, bool) {
	if s.kind != "byte" {
		return 0, false
	}
	b, _ := x.field([]seg{s}, 1)
	return b.constant()
}

// element judges what a round of the loop over the content wrote.
func (e *bsonEnc) element(x *encCtx, ss []seg, tn string, at *Node) string {
	r := e.r
	if len(ss) == 0 {
		return "?"
	}
	first := ss[0]
	t, ok := x.constByte(first)
	if !ok {
		return "?"
	}
	size, fixed := bsonSizes[t]
	switch t {
	case 2, 3, 4, 5:
	default:
		if !fixed {
			x.say(first, "the element type byte 0x%02x is written", t)
			return "?"
		}
	}
	if tn != "" {
		good := false
		for _, k := range bsonTypes[tn] {
			good = good || k == t
		}
		if !good {
			x.say(first, "a value of type %s is written as element type 0x%02x", tn, t)
			return "?"
		}
	}
	// the key
	i := 1
	for {
		if i >= len(ss) {
			return "?"
		}
		if c, ok := x.constByte(ss[i]); ok && c == 0 {
			break
		}
		if ss[i].kind == "rec" || ss[i].kind == "rounds" {
			x.say(ss[i], "the key of the element is not ended by a zero byte")
			return "?"
		}
		e.key(x, ss[i], at)
		i++
	}
	pay := ss[i+1:]
	for _, s := range pay {
		if s.kind == "?" || s.kind == "rounds" {
			r.count("payloads not judged")
			return "?"
		}
	}
	where := first
	if len(pay) > 0 {
		where = pay[0]
	}
	what := fmt.Sprintf("element type 0x%02x", t)
	if tn != "" {
		what += " (" + tn + ")"
	}
	r.count("elements judged")
	r.sample(what + ": " + segsKey(ss))
	total := linConst(0)
	for _, s := range pay {
		if s.kind == "rec" {
			continue
		}
		total = total.add(s.size(), 1)
	}
	switch t {
	case 3, 4:
		if len(pay) != 1 || pay[0].kind != "rec" {
			x.say(where, "%s: the payload is %s instead of one document", what, segsKey(pay))
			return "?"
		}
		e.recs = append(e.recs, bsonRec{map[int64]string{3: "VT_Object", 4: "VT_Array"}[t], pay[0]})
		return "ok"
	}
	for _, s := range pay {
		if s.kind == "rec" {
			x.say(s, "%s: a document is written as payload", what)
			return "?"
		}
	}
	if fixed {
		if x.e.same(x.st, total, linConst(size)) < 0 {
			x.say(where, "%s: the payload has %s bytes instead of %d", what, total, size)
			return "?"
		}
		if b, ok := x.field(pay, int(size)); ok && size > 0 {
			e.number(x, where, what, t, tn, b, int(size)*8)
		}
		return "ok"
	}
	// a length
	n32, ok := x.field(pay, 4)
	if !ok {
		if total.isConst() && (total.c < 4 || len(pay) == 1) {
			x.say(where, "%s: the payload is always %s bytes, without a length", what, total)
		}
		return "?"
	}
	n, ok := x.count(n32, 32, where, what+": the length")
	if !ok {
		return "?"
	}
	pay = pay[4:]
	rest := total.add(linConst(-4), 1)
	if t == 5 {
		rest = rest.add(linConst(-1), 1) // the subtype
		if len(pay) > 0 {
			if c, ok := x.constByte(pay[0]); ok && c == 2 {
				// the length again
				in, ok := x.field(pay[1:], 4)
				if !ok {
					return "?"
				}
				m, ok := x.count(in, 32, pay[1], what+": the inner length")
				if ok && x.e.same(x.st, m, n.add(linConst(-4), 1)) < 0 {
					x.say(where, "%s: the inner length is %s and the outer %s", what, m, n)
				}
			}
		}
	}
	if x.e.same(x.st, n, rest) < 0 {
		x.say(where, "%s: the length is announced as %s, and %s bytes follow", what, n, rest)
		return "?"
	}
	if t == 2 {
		last := seg{}
		if len(pay) > 0 {
			last = pay[len(pay)-1]
		}
		if c, ok := x.constByte(last); last.kind == "byte" && (!ok || c != 0) || last.kind == "bytes" && strings.HasPrefix(last.t.base, "{DxValue.") {
			x.say(where, "%s: the text is not ended by a zero byte", what)
			return "?"
		}
		for _, s := range pay {
			if s.kind == "bytes" && tn == "VT_RawString" && strings.HasPrefix(s.t.base, "{DxValue.fstrvalue}") {
				if b, _ := e.src(x.st, s.t.base); b != nil && b.Op == OInit {
					x.say(where, "%s: the text is written as it is in the source, with its escapes", what)
				}
			}
		}
	}
	for _, s := range pay {
		field := map[int64]string{2: "fstrvalue", 5: "fbinary"}[t]
		if s.kind == "bytes" && strings.HasPrefix(s.t.base, "{DxValue.f") && !strings.HasPrefix(s.t.base, "{DxValue."+field) {
			x.say(s, "%s: the content written is %s", what, s.t.base)
		}
		if s.kind == "bytes" && strings.HasPrefix(s.t.base, "{DxValue."+field) && s.t.off.isConst() && s.t.off.c != 0 && t == 2 {
			x.say(s, "%s: the content written begins %s bytes into the text", what, s.t.off)
		}
	}
	return "ok"
}

// key: the keys of an array are its indexes.
func (e *bsonEnc) key(x *encCtx, s seg, at *Node) {
	n := s.node
	for k := 0; n != nil && k < 6; k++ {
		n = x.st.res(n)
		if isExtFn(n, "strconv.Itoa", "strconv.FormatInt") {
			break
		}
		if n.Op == OConvert || n.Op == OCall && n.Callee != nil && strings.HasPrefix(n.Callee.Name(), "Fast") {
			n = n.Args[0]
			continue
		}
		return
	}
	if n == nil || !isExtFn(n, "strconv.Itoa", "strconv.FormatInt") {
		return
	}
	if len(n.Args) > 1 {
		if b, ok := x.st.val(n.Args[1]).exact(); ok && b != 10 {
			x.say(s, "the index of an element is written in base %d", b)
		}
	}
	for _, phi := range at.Blk.Nodes {
		if phi.Op != OPhi || !isIntType(phi.Typ) {
			continue
		}
		init, ok := constIntOf0(phiInit(phi, at.Blk.loop))
		c, ok2 := stepOf(n.Args[0], phi)
		if !ok || !ok2 {
			continue
		}
		e.r.count("array keys")
		if init+c != 0 {
			x.say(s, "the first element of an array gets the key %d", init+c)
		}
	}
}

func constIntOf0(n *Node) (int64, bool) {
	if n == nil {
		return 0, false
	}
	return constIntOf(n)
}

func phiInit(phi *Node, l *Loop) *Node {
	for i, p := range phi.Blk.Preds {
		if !l.Blocks[p] && i < len(phi.Args) {
			return phi.Args[i].canon()
		}
	}
	return nil
}

// number compares a payload with the number it stands for.
func (e *bsonEnc) number(x *encCtx, at seg, what string, t int64, tn string, b bitv, w int) {
	src := ""
	for _, s := range b[:w] {
		if n, _, ok := splitBit(s); ok {
			if src != "" && n != src {
				if strings.HasPrefix(src, "{") && strings.HasPrefix(n, "{") {
					x.say(at, "%s: the payload is made of %s and %s", what, src, n)
				}
				return
			}
			src = n
		} else if s != "0" && s != "1" {
			return
		}
	}
	switch t {
	case 8:
		if c, ok := b.constant(); ok && tn != "" && c != map[string]int64{"VT_True": 1}[tn] {
			x.say(at, "%s: the byte %d is written", what, c)
		}
		return
	case 1:
		if src == "" {
			v, _ := b.constant()
			f := math.Float64frombits(uint64(v))
			if tn == "VT_NAN" && !math.IsNaN(f) || tn == "VT_INF" && !math.IsInf(f, 0) {
				x.say(at, "%s: the number %v is written", what, f)
			}
			return
		}
		if tn == "VT_NAN" || tn == "VT_INF" {
			return
		}
		want := map[string]string{"VT_Double": "#float64", "VT_Float": "#float32"}[tn]
		node, _ := e.src(x.st, src)
		if to, of := e.narrowed(x.w, node); to != "" {
			x.say(at, "%s: the number written is %s by way of a %s", what, of, to)
			return
		}
		if strings.HasPrefix(src, "{DxValue.simpleV") && tn == "VT_Float" {
			x.say(at, "%s: the payload is the bits of %s", what, src)
			return
		}
		if !strings.HasPrefix(src, "{DxValue.simpleV") || want == "" {
			return
		}
		if !strings.Contains(src, want) {
			x.say(at, "%s: the payload is the bits of %s", what, src)
			return
		}
	case 9:
		node, _ := e.src(x.st, src)
		if node != nil {
			e.millis(x, at, what, node)
		}
		return
	case 0x10, 0x11, 0x12:
		if src == "" {
			return
		}
		if !strings.HasPrefix(src, "{DxValue.simpleV") {
			e.r.count("numbers not followed")
			return
		}
		if !strings.Contains(src, "#int64") {
			x.say(at, "%s: the payload is the bits of %s", what, src)
			return
		}
	default:
		return
	}
	num := b
	if t == 0x10 {
		num = b.fit(32, true)
	}
	_, av := e.src(x.st, src)
	for i := 0; i < 64; i++ {
		must := x.bit(fmt.Sprintf("%s:%d", src, i))
		if num[i] != must {
			if x.judged(src) {
				x.say(at, "%s: bit %d of the number that is read back is %s instead of %s (range of the number here: %s)", what, i, num[i], must, av)
			}
			return
		}
	}
	e.r.count("numbers judged")
}

// millis: a number of milliseconds since 1970.
func (e *bsonEnc) millis(x *encCtx, at seg, what string, n *Node) {
	parts := map[string]float64{}
	ok := true
	var walk func(n *Node, k float64, d int)
	walk = func(n *Node, k float64, d int) {
		n = x.st.res(n)
		if d > 20 {
			ok = false
			return
		}
		switch {
		case n.Op == OConvert && isIntType(n.Typ) && isIntType(n.Args[0].Typ):
			walk(n.Args[0], k, d+1)
			return
		case n.Op == OBin && (n.Tok == token.ADD || n.Tok == token.SUB):
			walk(n.Args[0], k, d+1)
			if n.Tok == token.SUB {
				k = -k
			}
			walk(n.Args[1], k, d+1)
			return
		case n.Op == OBin && (n.Tok == token.MUL || n.Tok == token.QUO):
			a, b := n.Args[0], n.Args[1]
			c, isC := x.st.val(b).exact()
			if !isC && n.Tok == token.MUL {
				a, b = b, a
				c, isC = x.st.val(b).exact()
			}
			if isC && c != 0 {
				if n.Tok == token.MUL {
					walk(a, k*float64(c), d+1)
				} else {
					walk(a, k/float64(c), d+1)
				}
				return
			}
		case n.Op == OConst:
			if c, isC := constIntOf(n); isC {
				parts["1"] += k * float64(c)
				return
			}
		case n.Op == OCall && n.Callee != nil:
			parts[n.Callee.String()] += k
			return
		}
		ok = false
	}
	walk(n, 1, 0)
	if !ok || len(parts) == 0 {
		e.r.count("times not followed")
		return
	}
	units := map[string]float64{"(time.Time).Unix": 1000, "(time.Time).Nanosecond": 1e-6, "(time.Time).UnixMilli": 1, "(time.Time).UnixMicro": 1e-3, "(time.Time).UnixNano": 1e-6, "(time.Time).Sub": 1e-6, "time.Since": 1e-6, "time.Until": 1e-6,
		"(time.Duration).Milliseconds": 1}
	for c, k := range parts {
		u, known := units[c]
		switch {
		case c == "1" && k == 0:
		case c == "(time.Time).Sub" || c == "(time.Duration).Milliseconds" || c == "(time.Time).UnixNano":
			x.say(at, "%s: the time is taken through nanoseconds in 64 bits (%s): a time before 1678 or after 2262 is written wrong", what, c)
		case !known:
			e.r.count("times not followed")
			return
		case math.Abs(k/u-1) > 1e-9:
			x.say(at, "%s: %s counts %g times as milliseconds instead of %g", what, c, k, u)
		}
	}
	if _, u := parts["(time.Time).Unix"]; u {
		if _, ns := parts["(time.Time).Nanosecond"]; !ns && len(parts) == 1 {
			x.say(at, "%s: the milliseconds of the time are dropped", what)
		}
	}
	e.r.count("times judged")
}

// document judges what was written when the function returns.
func (e *bsonEnc) document(st *FState, n *Node, root string, seen map[string]bool) {
	es := st.C.(*encState)
	r := e.r
	if len(n.Args) == 0 {
		return
	}
	ss, ok := es.outs[st.res(n.Args[0])]
	if os.Getenv("DXDEBUG") != "" {
		fmt.Println("RET", root, e.p.pos(n.Pos), ok, segsKey(ss))
	}
	if !ok {
		r.count("paths not followed")
		return
	}
	if len(n.Args) > 1 && st.nilState(n.Args[1]) < 0 {
		return
	}
	w := e.wire(st)
	say := e.sayer(seen, "")
	x := &encCtx{e: e.encoding, st: st, w: w, kb: e.knownBits(st), little: true, say: say}
	at := seg{pos: n.Pos, frm: n.Frame}
	if len(ss) == 1 && ss[0].kind == "rec" {
		r.count("documents passed on")
		e.recs = append(e.recs, bsonRec{root, ss[0]})
		return
	}
	total := linConst(0)
	for _, s := range ss {
		if s.kind == "?" {
			r.count("documents not judged")
			return
		}
		total = total.add(s.size(), 1)
	}
	if len(ss) == 0 {
		return
	}
	lb, ok := x.field(ss, 4)
	if !ok {
		r.count("documents not judged")
		return
	}
	r.count("documents judged")
	r.sample(segsKey(ss))
	l, ok := x.count(lb, 32, ss[0], "the length of the document")
	if ok {
		if x.e.same(st, l, total) < 0 || !l.eq(total) && known(l.String()) && l.add(total, -1).isConst() {
			say(ss[0], "the length of the document is announced as %s, and %s bytes are written", l, total)
		}
	}
	rest := ss[4:]
	if len(rest) == 0 {
		say(at, "the document is not ended by a zero byte")
		return
	}
	if c, ok := x.constByte(rest[len(rest)-1]); rest[len(rest)-1].kind != "byte" || ok && c != 0 {
		say(at, "the document is not ended by a zero byte")
		return
	}
	for _, s := range rest[:len(rest)-1] {
		if s.kind != "rounds" {
			continue
		}
		for _, k := range strings.Split(s.per, ",") {
			if f := e.notes[k]; f != nil {
				f()
			}
		}
		for _, cv := range e.ir.covers() {
			if s.node == nil || cv.Loop.Header != s.node.Blk || cv.Slice == nil {
				continue
			}
			if c, _ := e.ir.sliceField(cv.Slice); c == "" {
				continue
			}
			r.count("loops over the content")
			if !cv.Full && cv.Why != "" && cv.Why != "has a bound that is not a length" {
				say(s, "not every element is written: the loop %s", cv.Why)
			}
		}
	}
}

var _ = ssa.NaiveForm
