package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: what is written for a value is one MsgPack item that the format's specification reads back as the value.

func init() {
	register("C14", (*Check).msgpackEncoding)
}

type encCtx struct {
	e      *encoding
	st     *FState
	w      *wire
	kb     map[string]string
	little bool // little-endian
	say    func(s seg, f string, a ...interface{})
}

type mpItem struct {
	lead    int64
	kind    string
	null    bool
	num     bitv // integers and floats
	n       lin2 // length or count
	content []seg
	first   seg
}

func (x *encCtx) bit(s string) string { return x.e.norm(x.st, s, x.kb) }

// judged: the range of a number is only a witness if everything that was asked about it is understood.
func (x *encCtx) judged(src string) bool {
	n, _ := x.e.src(x.st, src)
	if n == nil {
		return false
	}
	for _, u := range x.e.usesOf(n) {
		if u.Op == OCall && u.Callee != nil && !x.e.p.internal(u.Callee) && answers(u.Callee) && !isExtFn(u, "math.Float32bits", "math.Float64bits") {
			if _, _, _, ok := endianCall(u.Callee); !ok {
				return false
			}
		}
	}
	return true
}

// answers: what is returned can be asked for.
func answers(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if b, ok := rs.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0 {
			return true
		}
	}
	return false
}

func (e *encoding) usesOf(n *Node) []*Node {
	if e.uses == nil {
		e.uses = map[*Node][]*Node{}
		for _, b := range e.ir.Blocks {
			for _, u := range b.Nodes {
				for _, a := range u.Args {
					e.uses[a.canon()] = append(e.uses[a.canon()], u)
				}
			}
		}
	}
	return e.uses[n.canon()]
}

// count: the number that the first w bits of b are; ok if that is a number that is understood.
func (x *encCtx) count(b bitv, w int, at seg, what string) (lin2, bool) {
	for i := range b {
		b[i] = x.bit(b[i])
	}
	if v, ok := b.constant(); ok {
		return linConst(v), true
	}
	src := ""
	for i := 0; i < w; i++ {
		if s, _, ok := splitBit(b[i]); ok {
			if src == "" {
				src = s
			} else if s != src {
				return lin2{}, false
			}
		} else if b[i] != "0" {
			return lin2{}, false
		}
	}
	n, av := x.e.src(x.st, src)
	if n == nil {
		return lin2{}, false
	}
	for i := 0; i < 64; i++ {
		want := x.bit(fmt.Sprintf("%s:%d", src, i))
		if i < w {
			if b[i] != want {
				if x.judged(src) {
					x.say(at, "%s is written as %s: its bits are not in %s-endian order", what, strings.TrimSuffix(b.String(), " 0*56"), map[bool]string{true: "little", false: "big"}[x.little])
				}
				return lin2{}, false
			}
			continue
		}
		if want != "0" {
			if x.judged(src) && i < 32 {
				x.say(at, "%s %s is written in %d bits, although it may need more (%s)", what, src, w, av)
			}
			if i < 32 {
				return lin2{}, false
			}
			break // lengths of 2^32 and more are outside
		}
	}
	return x.w.lin(n), true
}

// item reads one item.
func (x *encCtx) item(ss []seg) ([]seg, mpItem, bool) {
	if len(ss) == 0 {
		return ss, mpItem{}, false
	}
	f := ss[0]
	it := mpItem{first: f, lead: -1}
	if f.kind == "rec" {
		it.kind = "rec"
		return ss[1:], it, true
	}
	if f.kind != "byte" {
		return ss, it, false
	}
	var lb bitv
	for i := range lb {
		lb[i] = "0"
		if i < 8 {
			lb[i] = x.bit(f.bits[i])
		}
	}
	num := func(k int) bitv {
		b := lb
		for i := k; i < 64; i++ {
			b[i] = "0"
		}
		return b
	}
	var want codeWant
	low := 0 // number of bits of the lead byte that are data
	if c, ok := lb.constant(); ok {
		want = wantFor(c)
		it.lead = c
	} else {
		top := func(k int) string { return lb[7] + lb[6] + lb[5] + lb[4][:1] }
		_ = top
		switch {
		case lb[7] == "0":
			want, low = wantFor(0), 7
		case lb[7] == "1" && lb[6] == "1" && lb[5] == "1":
			want, low = wantFor(0xe0), 5
		case lb[7] == "1" && lb[6] == "0" && lb[5] == "1":
			want, low = wantFor(0xa0), 5
		case lb[7] == "1" && lb[6] == "0" && lb[5] == "0" && lb[4] == "0":
			want, low = wantFor(0x80), 4
		case lb[7] == "1" && lb[6] == "0" && lb[5] == "0" && lb[4] == "1":
			want, low = wantFor(0x90), 4
		case x.fixint(lb):
			for i := 8; i < 64; i++ {
				lb[i] = lb[7]
			}
			it.kind, it.num = "int", lb
			return ss[1:], it, true
		default:
			// which item it is depends on the number
			src, _, ok := splitBit(lb[7])
			for i := 6; !ok && i >= 4; i-- {
				src, _, ok = splitBit(lb[i])
			}
			_, av := x.e.src(x.st, src)
			if ok && x.judged(src) {
				x.say(f, "the lead byte is %s: the upper bits of %s (%s) can turn it into any other lead byte", f, src, av)
			}
			return ss, it, false
		}
	}
	it.kind = want.kind
	ss = ss[1:]
	head := func(k int) (bitv, bool) {
		var b bitv
		if len(ss) < k {
			return b, false
		}
		for i := range b {
			b[i] = "0"
		}
		for i := 0; i < k; i++ {
			s := ss[k-1-i]
			if s.kind != "byte" {
				return b, false
			}
			for j := 0; j < 8; j++ {
				b[8*i+j] = x.bit(s.bits[j])
			}
		}
		ss = ss[k:]
		return b, true
	}
	short := func() ([]seg, mpItem, bool) {
		bytes := 0
		for _, s := range ss {
			if s.kind != "byte" {
				return ss, it, false
			}
			bytes++
		}
		if bytes < int(want.head)-1 {
			x.say(f, "after the lead byte 0x%02x only %d of %d bytes are written", it.lead, bytes, want.head-1)
		}
		return ss, it, false
	}
	switch want.kind {
	case "const":
		it.null = want.typ == "VT_NULL"
		return ss, it, true
	case "error":
		x.say(f, "the reserved lead byte 0x%02x is written", it.lead)
		return ss, it, false
	case "int", "float", "double":
		if want.head == 1 {
			if c, ok := lb.constant(); ok {
				it.num = constBits(wantFor(c).bits.asInt())
			} else if low == 7 {
				it.num = num(7)
			} else {
				it.num = lb
				for i := 5; i < 64; i++ {
					it.num[i] = "1"
				}
			}
			return ss, it, true
		}
		b, ok := head(int(want.head) - 1)
		if !ok {
			return short()
		}
		w := int(want.head-1) * 8
		signed := it.lead >= 0xd0 && it.lead <= 0xd3
		it.num = b.fit(w, signed)
		return ss, it, true
	}
	// a length or count
	var cb bitv
	w := 0
	switch {
	case low > 0:
		cb, w = num(low), low
	case want.n.isConst():
		cb, w = constBits(want.n.c), 64
	default:
		var ok bool
		w = int(want.head-1) * 8
		if cb, ok = head(int(want.head) - 1); !ok {
			return short()
		}
	}
	names := map[string]string{"str": "the length of the text", "bin": "the length of the binary", "ext": "the length of the extension", "array": "the number of elements", "map": "the number of members"}
	n, ok := x.count(cb, w, f, names[want.kind])
	if !ok {
		return ss, it, false
	}
	if want.kind == "ext" && !want.n.isConst() {
		n = n.add(linConst(1), 1)
	}
	it.n = n
	if want.kind == "array" || want.kind == "map" {
		per := 1
		if want.kind == "map" {
			per = 2
		}
		if len(ss) > 0 && ss[0].kind == "rounds" {
			r := ss[0]
			sure, good := true, true
			one := map[int]string{1: "1:any", 2: "2:str"}[per]
			for _, k := range strings.Split(r.per, ",") {
				if k == "" {
					continue
				}
				if f := x.e.notes[k]; f != nil {
					f()
					sure = false
				} else if k == "?" {
					sure = false
				} else if k != one {
					good = false
				}
			}
			if sure && !good && (!strings.Contains(r.per, ",") || x.e.same(x.st, r.n, n) == 1) {
				x.say(f, "each round of the loop over the content of the %s writes %s", want.kind, map[bool]string{true: "something else than a key (a text) and a value: ", false: "something else than one element: "}[per == 2]+r.per+" (number of items : kind of the first)")
				return ss[1:], it, false
			}
			if x.e.same(x.st, r.n, n) < 0 {
				x.say(f, "%s items are announced, and %s rounds of the loop write them", n, r.n)
				return ss[1:], it, false
			}
			return ss[1:], it, sure && good
		}
		if n.isConst() && n.c <= 64 {
			for i := int64(0); i < n.c*int64(per); i++ {
				var ok bool
				if len(ss) == 0 {
					x.say(f, "%d items are announced, and only %d are written", n.c*int64(per), i)
					return ss, it, false
				}
				if ss, _, ok = x.item(ss); !ok {
					return ss, it, false
				}
			}
			return ss, it, true
		}
		if len(ss) == 0 && x.e.same(x.st, n, linConst(0)) == 1 {
			return ss, it, true
		}
		return ss, it, false
	}
	cum := linConst(0)
	for {
		s := x.e.same(x.st, cum, n)
		if s == 1 {
			// empty pieces that follow belong to nothing
			return ss, it, true
		}
		if len(ss) == 0 || ss[0].kind != "byte" && ss[0].kind != "bytes" {
			if s < 0 && !(len(ss) > 0 && ss[0].kind == "?") {
				x.say(f, "%s is announced as %s, and %s bytes are written", names[want.kind], n, cum)
			}
			return ss, it, false
		}
		cum = cum.add(ss[0].size(), 1)
		it.content = append(it.content, ss[0])
		ss = ss[1:]
	}
}

func (b bitv) asInt() int64 { v, _ := b.constant(); return v }

// fixint: the low byte of a number that is a fixint of either sign.
func (x *encCtx) fixint(lb bitv) bool {
	src, k, ok := splitBit(lb[0])
	if !ok || k != 0 {
		return false
	}
	for i := 0; i < 8; i++ {
		if lb[i] != x.bit(fmt.Sprintf("%s:%d", src, i)) {
			return false
		}
	}
	_, av := x.e.src(x.st, src)
	return av.lo >= -32 && av.hi <= 127
}

// items names what a round of a loop wrote: the number of items, and what the first one is.
func (x *encCtx) items(ss []seg) string {
	n, first := 0, "any"
	for len(ss) > 0 {
		var it mpItem
		var ok bool
		if ss, it, ok = x.item(ss); !ok {
			return "?"
		}
		if n == 0 && it.kind == "str" {
			first = "str"
		}
		n++
	}
	if n == 1 {
		first = "any"
	}
	return fmt.Sprintf("%d:%s", n, first)
}

func (c *Check) msgpackEncoding() *Result {
	r := newResult()
	r.Min = 40
	r.Rules = []string{
		"for each function that encodes a value as MsgPack and each type the value may have, on each path: the bytes written (as terms over the bits of the value's number, its lengths and its text) are read as the MsgPack specification reads them: one item, of the kind that is the type's own, whose number is bit for bit the value's number, whose length is the number of bytes that follow, and whose count is the number of rounds of the loop that writes the elements, each of which writes one item (a text and an item for a map)",
		"a field that is too narrow for what the path says about the range of the number, or in another byte order, is reported at the lead byte",
	}
	r.Assumptions = []string{"lengths of 2^32 and more are outside", "a recursive call writes one item (which is what is shown for each encoder)", "that keys are read unescaped is C18's"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	roots := p.encoders("msgpack")
	for _, f := range roots {
		e := &encoding{p: p, r: r, f: f, rule: "msgpack output"}
		if !e.build(900) {
			continue
		}
		r.Functions[fnName(f)] = true
		e.msgpack()
	}
	return r
}

// encoders: the functions that write a value in a format: those with the format's name that are exported or recursive.
func (p *Program) encoders(format string) []*ssa.Function {
	var out []*ssa.Function
	in := map[*ssa.Function]bool{}
	work := p.entries(func(f *ssa.Function) bool {
		return apiName(f) != "" && strings.Contains(strings.ToLower(f.Name()), format) && !isDecodeEntry(f)
	})
	// those that are handed what was written so far
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if in[f] {
			continue
		}
		in[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if g, _ := callOf(i); g != nil && p.internal(g) {
					for _, q := range g.Params {
						if isByteSlice(q.Type()) {
							work = append(work, g)
							break
						}
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if !in[f] || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		if _, _, ok := isEncoder(f); !ok {
			continue
		}
		if p.inCycle[f] || apiName(f) != "" && strings.Contains(strings.ToLower(f.Name()), format) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func (e *encoding) msgpack() {
	p, ir, r := e.p, e.ir, e.r
	vt := p.valueTypes()
	var names []string
	for n := range vt {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return vt[names[i]] < vt[names[j]] })
	seen := map[string]bool{}
	e.notes = map[string]func(){}
	e.round = func(e *encoding, w *wire, ss []seg, at *Node) string {
		// what is wrong with a round is only said where the loop turns out to write the content of a list or map
		note := ""
		say := e.sayer(seen, "")
		x := &encCtx{e: e, st: w.st, w: w, kb: e.knownBits(w.st), say: func(s seg, f string, a ...interface{}) {
			if note != "" || e.fl.unsure() {
				return
			}
			m := fmt.Sprintf(f, a...)
			note = fmt.Sprintf("!%s/%d", strings.ReplaceAll(m, ",", ";"), s.pos)
			if e.notes[note] == nil {
				e.notes[note] = func() { say(s, "%s", m) }
			}
		}}
		r := x.items(ss)
		if note != "" {
			return note
		}
		return r
	}
	for _, tn := range names {
		if o := os.Getenv("DXT"); o != "" && o != tn {
			continue
		}
		t := vt[tn]
		init := newEncState(e)
		init.outs[e.dst] = nil
		fl := &Flow{IR: ir, Max: 64, Init: init, live: e.live.live, consts: e.live.consts, counted: e.live.counted, Limit: 40000}
		e.fl = fl
		fl.Edge = e.left
		fl.Step = func(st *FState, n *Node) bool {
			if n.Op == OLoad && n.Typ != nil && tname(n.Typ) == "ValueType" {
				l := ir.loc(n.Args[0])
				if l.Root != nil && l.Root.canon() == e.val && l.Class == "DxValue.DataType" && n.canon().Op == OInit {
					return st.set(n, AV{lo: t, hi: t})
				}
			}
			if n.Op == OReturn {
				if fl.unsure() {
					r.count("joined paths, not judged")
					return false
				}
				e.msgReturn(st, n, tn, seen)
				return false
			}
			e.step(st, n)
			return true
		}
		fl.run()
		r.count("types of value analysed")
		if fl.Too {
			r.count("types with too many paths")
		}
	}
}

func (e *encoding) sayer(seen map[string]bool, what string) func(s seg, f string, a ...interface{}) {
	return func(s seg, f string, a ...interface{}) {
		if e.fl.unsure() {
			return
		}
		m := what + fmt.Sprintf(f, a...)
		if seen[m+fmt.Sprint(s.pos)] {
			return
		}
		seen[m+fmt.Sprint(s.pos)] = true
		fn := fnName(e.f)
		if s.frm != nil {
			fn = s.frm.chain(e.p)
		}
		e.r.bad(e.p, e.rule, s.pos, fn, "%s", m)
	}
}

var encKinds = map[string]string{
	"VT_Object": "map", "VT_Array": "array", "VT_String": "str", "VT_RawString": "str", "VT_Int": "int", "VT_Float": "float double",
	"VT_Double": "double", "VT_DateTime": "ext", "VT_Binary": "bin", "VT_ExBinary": "ext", "VT_NULL": "const", "VT_True": "const", "VT_False": "const",
	"VT_NAN": "double float", "VT_INF": "double float",
}

func (e *encoding) msgReturn(st *FState, n *Node, tn string, seen map[string]bool) {
	es := st.C.(*encState)
	r := e.r
	if len(n.Args) == 0 {
		return
	}
	res := st.res(n.Args[0])
	ss, ok := es.outs[res]
	if os.Getenv("DXDEBUG") != "" {
		fmt.Println("RET", tn, e.p.pos(n.Pos), ok, segsKey(ss), "nil", st.nilState(e.val))
	}
	if !ok {
		r.count("paths not followed")
		return
	}
	isNil := st.nilState(e.val) == 1
	what := "for a value of type " + tn + ": "
	if isNil {
		what = "for no value: "
	}
	w := e.wire(st)
	say := e.sayer(seen, what)
	x := &encCtx{e: e, st: st, w: w, kb: e.knownBits(st), say: say}
	at := seg{pos: n.Pos, frm: n.Frame}
	if len(ss) == 0 {
		say(at, "nothing is written")
		return
	}
	rest, it, ok := x.item(ss)
	if !ok {
		r.count("paths not judged")
		return
	}
	r.count("paths judged")
	if len(rest) > 0 {
		if rest[0].kind == "byte" || rest[0].kind == "rec" {
			say(rest[0], "more is written after the item: %s", segsKey(rest))
		}
		return
	}
	if it.kind == "rec" {
		return
	}
	want := encKinds[tn]
	if isNil {
		want = "const"
	}
	if want == "" {
		return
	}
	good := false
	for _, k := range strings.Fields(want) {
		good = good || k == it.kind
	}
	if !good {
		say(it.first, "a MsgPack %s is written", it.kind)
		return
	}
	r.sample(what + segsKey(ss))
	own := func(f string) bool { return strings.Contains(segsKey(ss), "{DxValue."+f) }
	_ = own
	switch tn {
	case "VT_NULL", "VT_True", "VT_False":
		if isNil {
			tn = "VT_NULL"
		}
		if wantFor(it.lead).typ != tn {
			say(it.first, "the lead byte 0x%02x, which is %s, is written", it.lead, wantFor(it.lead).typ)
		}
		return
	}
	if isNil {
		if it.lead != 0xc0 {
			say(it.first, "the lead byte 0x%02x is written instead of nil", it.lead)
		}
		return
	}
	switch tn {
	case "VT_Int", "VT_Float", "VT_Double":
		suffix := map[string]string{"int": "#int64", "float": "#float32", "double": "#float64"}[it.kind]
		src := ""
		for _, b := range it.num {
			if s, _, ok := splitBit(b); ok {
				if src != "" && s != src {
					return
				}
				src = s
			}
		}
		node, av := e.src(st, src)
		if src == "" {
			// a number that is known on this path, or none
			return
		}
		if to, of := e.narrowed(x.w, node); to != "" {
			say(it.first, "the number written is %s by way of a %s", of, to)
			return
		}
		if node == nil || !strings.HasPrefix(src, "{DxValue.simpleV") {
			r.count("numbers not followed")
			return
		}
		if !strings.Contains(src, suffix) {
			say(it.first, "a MsgPack %s is written with the bits of %s", it.kind, src)
			return
		}
		wd := 64
		if it.kind == "float" {
			wd = 32
		}
		for i := 0; i < wd; i++ {
			must := x.bit(fmt.Sprintf("%s:%d", src, i))
			if it.num[i] != must {
				if x.judged(src) {
					say(it.first, "bit %d of the number that is read back is %s instead of %s (range of the number here: %s)", i, it.num[i], must, av)
				}
				return
			}
		}
	case "VT_NAN", "VT_INF":
		b := it.num
		if it.kind == "float" {
			b = it.num.fit(32, false)
		}
		v, ok := b.constant()
		if !ok {
			return
		}
		f := math.Float64frombits(uint64(v))
		if it.kind == "float" {
			f = float64(math.Float32frombits(uint32(v)))
		}
		if tn == "VT_NAN" && !math.IsNaN(f) || tn == "VT_INF" && !math.IsInf(f, 0) {
			say(it.first, "the number %v is written", f)
		}
	case "VT_DateTime":
		e.msgTime(x, it)
	case "VT_String", "VT_RawString", "VT_Binary", "VT_ExBinary":
		field := "fstrvalue"
		if it.kind == "bin" || it.kind == "ext" {
			field = "fbinary"
		}
		for _, s := range it.content {
			if s.kind == "bytes" && tn == "VT_RawString" && strings.HasPrefix(s.t.base, "{DxValue.fstrvalue}") {
				if b, _ := e.src(st, s.t.base); b != nil && b.Op == OInit {
					say(it.first, "the text is written as it is in the source, with its escapes")
				}
			}
			if s.kind == "bytes" && strings.HasPrefix(s.t.base, "{DxValue.f") && !strings.HasPrefix(s.t.base, "{DxValue."+field) {
				say(it.first, "the content written is %s", s.t.base)
			}
			if s.kind == "bytes" && strings.HasPrefix(s.t.base, "{DxValue.") && s.t.off.isConst() && s.t.off.c != 0 {
				say(it.first, "the content written begins %s bytes into %s", s.t.off, s.t.base)
			}
		}
	}
}

// scaled: a number that is one of a time times, over or modulo a constant other than 1.
func (e *encoding) scaled(n *Node) (how, of string) {
	for n.Op == OConvert && isIntType(n.Typ) && isIntType(n.Args[0].Typ) {
		n = n.Args[0].canon()
	}
	if n.Op != OBin || n.Tok != token.MUL && n.Tok != token.QUO && n.Tok != token.REM {
		return
	}
	a, b := n.Args[0].canon(), n.Args[1].canon()
	if n.Tok == token.MUL && a.Op == OConst {
		a, b = b, a
	}
	for a.Op == OConvert && isIntType(a.Typ) && isIntType(a.Args[0].Typ) {
		a = a.Args[0].canon()
	}
	c, ok := constIntOf(b)
	if !ok || c == 1 || a.Op != OCall || a.Callee == nil {
		return
	}
	return fmt.Sprint(n.Tok, " ", c), a.Callee.String()
}

// narrowed: the value's number, converted to a type that cannot hold it and on from there.
func (e *encoding) narrowed(w *wire, n *Node) (to, of string) {
	if n == nil || n.Op != OConvert {
		return
	}
	for _, u := range e.usesOf(n) {
		if !isExtFn(u, "math.Float32bits", "math.Float64bits") {
			return // it is compared with what it came from
		}
	}
	for n.Op == OConvert {
		if b, ok := n.Typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Float32 || b.Info()&types.IsInteger != 0) {
			to = b.Name()
		}
		n = w.st.res(n.Args[0]).canon()
	}
	if s := e.name(w, n); to != "" && strings.HasPrefix(s, "{DxValue.simpleV#float64") {
		return to, s
	}
	return "", ""
}

// msgTime: the three timestamp formats.
func (e *encoding) msgTime(x *encCtx, it mpItem) {
	var bs []bitv
	for _, s := range it.content {
		if s.kind != "byte" {
			return
		}
		var b bitv
		for i := range b {
			b[i] = "0"
			if i < 8 {
				b[i] = x.bit(s.bits[i])
			}
		}
		bs = append(bs, b)
	}
	if len(bs) == 0 {
		return
	}
	if v, ok := bs[0].constant(); ok && v != 0xff {
		x.say(it.first, "a time is written as the extension type %d instead of -1", int8(v))
		return
	}
	join := func(from, to int) bitv {
		var r bitv
		for i := range r {
			r[i] = "0"
		}
		for k := 0; k < to-from; k++ {
			copy(r[8*k:8*k+8], bs[to-1-k][:8])
		}
		return r
	}
	var sec, ns bitv
	switch len(bs) {
	case 5:
		sec, ns = join(1, 5), constBits(0)
	case 9:
		all := join(1, 9)
		for i := range sec {
			sec[i], ns[i] = "0", "0"
			if i < 34 {
				sec[i] = all[i]
			}
			if i+34 < 64 {
				ns[i] = all[i+34]
			}
		}
	case 13:
		ns, sec = join(1, 5), join(5, 13)
	default:
		x.say(it.first, "a time is written in an extension of %d bytes", len(bs)-1)
		return
	}
	// the numbers a field may be meant to hold: the one its bits come from, or,
	// where it has none of any, each that was taken of a time
	src := func(b bitv, fn string) []string {
		for _, s := range b {
			if n, _, ok := splitBit(s); ok && strings.HasPrefix(n, "{") {
				return []string{n}
			}
		}
		var all []string
		for n := range e.srcs {
			if strings.HasPrefix(n, "{"+fn+"}") {
				all = append(all, n)
			}
		}
		sort.Strings(all)
		return all
	}
	for _, q := range []struct {
		b    bitv
		fn   string
		what string
	}{{sec, "(time.Time).Unix", "seconds"}, {ns, "(time.Time).Nanosecond", "nanoseconds"}} {
		ss := src(q.b, q.fn)
		if len(ss) == 0 || len(e.srcs[ss[0]]) == 0 {
			e.r.count("times not followed")
			continue
		}
		if !strings.HasPrefix(ss[0], "{"+q.fn+"}") {
			if n, of := e.scaled(e.srcs[ss[0]][0]); n != "" && of == q.fn {
				x.say(it.first, "the %s of a time are written as %s %s", q.what, of, n)
			} else if strings.HasPrefix(ss[0], "{(time.Time).") {
				x.say(it.first, "the %s of a time are written with the bits of %s", q.what, ss[0])
			}
			continue
		}
		bad := ""
		for _, s := range ss {
			bad = ""
			for i := 0; i < 64 && bad == ""; i++ {
				if must := x.bit(fmt.Sprintf("%s:%d", s, i)); q.b[i] != must {
					bad = fmt.Sprintf("bit %d of the %s of the time that are read back is %s instead of %s", i, q.what, q.b[i], must)
				}
			}
			if bad == "" {
				break
			}
		}
		if bad != "" {
			x.say(it.first, "%s", bad)
		}
		e.r.count("times judged")
	}
}
