package main

import (
	"fmt"
	"go/token"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bsonWant: what the specification lays down for the payload of an element type.
type bsonWant struct {
	t     int64
	label string
	pins  map[int64]AV
	fail  bool // not supported
	typ   string
	field string // simpleV, fstrvalue, fbinary
	must  string
	size  lin2
	ext   int64 // -1: any
	time  bool
}

func bsonWants() []bsonWant {
	le := func(off int64, w int, signed bool) bitv { return byteBits(inByte, off, w, true, signed) }
	num := func(off int64) lin2 { return linTerm(le(off, 32, false).String()) }
	in := func(off int64, n lin2) string {
		return sliceTerm{base: "in", off: linConst(off), n: n, hasN: true}.String()
	}
	var out []bsonWant
	add := func(w bsonWant) {
		if w.label == "" {
			w.label = fmt.Sprintf("element type 0x%02x", w.t)
		}
		out = append(out, w)
	}
	for t := int64(0); t < 256; t++ {
		switch t {
		case 1:
			add(bsonWant{t: t, typ: "VT_Double", field: "simpleV", must: "float64 " + le(0, 64, false).String(), size: linConst(8), ext: -1})
		case 2:
			add(bsonWant{t: t, typ: "VT_String", field: "fstrvalue", must: in(4, num(0).add(linConst(-1), 1)), size: num(0).add(linConst(4), 1), ext: -1})
		case 3, 4:
		case 5:
			for _, sub := range []int64{0, 2, 1, 3, 4, 5, 6, 7, 0x80, 0xff} {
				w := bsonWant{t: t, label: fmt.Sprintf("element type 0x05, subtype 0x%02x", sub), pins: map[int64]AV{4: {lo: sub, hi: sub}}, field: "fbinary", ext: -1}
				switch sub {
				case 0:
					w.typ, w.must, w.size = "VT_Binary", in(5, num(0)), num(0).add(linConst(5), 1)
				case 2:
					w.typ, w.must, w.size = "VT_Binary", in(9, num(5)), num(5).add(linConst(9), 1)
				default:
					w.typ, w.must, w.size = "VT_ExBinary", in(4, num(0).add(linConst(1), 1)), num(0).add(linConst(5), 1)
					w.ext = t
				}
				add(w)
			}
		case 6, 0x0a:
			add(bsonWant{t: t, typ: "VT_NULL", size: linConst(0), ext: -1})
		case 0x7f, 0xff:
			add(bsonWant{t: t, size: linConst(0), ext: -1})
		case 7:
			add(bsonWant{t: t, typ: "VT_Binary", field: "fbinary", must: in(0, linConst(12)), size: linConst(12), ext: t})
		case 8:
			for _, v := range []int64{0, 1} {
				add(bsonWant{t: t, label: fmt.Sprintf("element type 0x08, byte %d", v), pins: map[int64]AV{0: {lo: v, hi: v}}, typ: []string{"VT_False", "VT_True"}[v], size: linConst(1), ext: -1})
			}
		case 9:
			add(bsonWant{t: t, typ: "VT_DateTime", time: true, size: linConst(8), ext: -1})
		case 0x10:
			add(bsonWant{t: t, typ: "VT_Int", field: "simpleV", must: "int64 " + le(0, 32, true).String(), size: linConst(4), ext: -1})
		case 0x11:
			add(bsonWant{t: t, typ: "VT_Int", field: "simpleV", must: "int64 " + le(0, 64, false).String(), size: linConst(8), ext: t})
		case 0x12:
			add(bsonWant{t: t, typ: "VT_Int", field: "simpleV", must: "int64 " + le(0, 64, false).String(), size: linConst(8), ext: -1})
		case 0x13:
			add(bsonWant{t: t, typ: "VT_Binary", field: "fbinary", must: in(0, linConst(16)), size: linConst(16), ext: t})
		default:
			add(bsonWant{t: t, fail: true})
		}
	}
	return out
}

// bsonReaders: the functions that read the payload of an element: they are told the element type byte.
func (p *Program) bsonReaders() []*ssa.Function {
	ents := p.entries(func(f *ssa.Function) bool {
		return isDecodeEntry(f) && strings.Contains(strings.ToLower(f.Name()), "bson")
	})
	in := p.reachable(ents)
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !in[f] || len(f.Blocks) == 0 || !p.internal(f) {
			continue
		}
		bs, v, t, e := 0, 0, 0, false
		for _, q := range f.Params {
			switch {
			case isByteSlice(q.Type()):
				bs++
			case isValuePtr(q.Type()):
				v++
			case tname(q.Type()) == "BsonType":
				t++
			}
		}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			e = e || tname(rs.At(i).Type()) == "error"
		}
		if bs == 1 && v == 1 && t == 1 && e {
			out = append(out, f)
		}
	}
	// those that only others of them call are analysed as part of those
	is := map[*ssa.Function]bool{}
	for _, f := range out {
		is[f] = true
	}
	kept := out[:0]
	for _, f := range out {
		outer := false
		for _, c := range p.callers[f] {
			outer = outer || !is[c.Parent()]
		}
		if outer || len(out) == 1 {
			kept = append(kept, f)
		}
	}
	out = kept
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// usedResults: the integer results of a function that a caller adds to something.
func (p *Program) usedResults(f *ssa.Function) map[int]bool {
	out := map[int]bool{}
	for _, c := range p.callers[f] {
		v, ok := ssa.Value(c), true
		if !ok || v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			x, ok := r.(*ssa.Extract)
			if !ok || !isIntType(x.Type()) {
				continue
			}
			for _, u := range *x.Referrers() {
				if b, ok := u.(*ssa.BinOp); ok && b.Op == token.ADD {
					out[x.Index] = true
				}
			}
		}
	}
	return out
}

// givenType: the type that the value handed to f has, wherever f is called: that which it was just made with.
func (p *Program) givenType(f *ssa.Function) (int64, bool) {
	t, any := int64(0), false
	for _, c := range p.callers[f] {
		for i, q := range f.Params {
			if !isValuePtr(q.Type()) || i >= len(c.Call.Args) {
				continue
			}
			m, ok := c.Call.Args[i].(*ssa.Call)
			if !ok {
				return 0, false
			}
			found := false
			for _, a := range m.Call.Args {
				if k, ok := a.(*ssa.Const); ok && tname(a.Type()) == "ValueType" {
					if any && k.Int64() != t {
						return 0, false
					}
					t, any, found = k.Int64(), true, true
				}
			}
			if !found {
				return 0, false
			}
		}
	}
	return t, any
}

func (c *Check) bsonDecoding(r *Result) {
	p := c.P
	for _, f := range p.bsonReaders() {
		d := &decoding{p: p, r: r, f: f, kinds: p.sharedConstants(), vt: p.valueTypes()}
		d.build(map[*ssa.Function]bool{})
		if d.in == nil {
			continue
		}
		r.Functions[fnName(f)] = true
		used := p.usedResults(f)
		ir := d.ir
		d.trips = tripsOf(ir)
		proto := &Flow{IR: ir}
		proto.prepare()
		for _, b := range ir.Blocks {
			for _, n := range b.Nodes {
				if n.Op == OLoad && n.Typ != nil && tname(n.Typ) == "ValueType" {
					proto.Keep(n.canon())
				}
				if n.Op == OPhi && n.Typ != nil && (isByteSlice(n.Typ) || isString(n.Typ) || isValuePtr(n.Typ) || isIntType(n.Typ) || tname(n.Typ) == "error") {
					proto.Keep(n)
				}
			}
		}
		d.live = proto
		var pin *Node
		for i, q := range f.Params {
			if tname(q.Type()) == "BsonType" {
				pin = ir.Params[i].canon()
			}
		}
		if t, ok := p.givenType(f); ok {
			d.first = func(s *decState) {
				for i, q := range f.Params {
					if isValuePtr(q.Type()) {
						s.obj[ir.Params[i].canon()] = &objCells{hasDt: true, dtv: t, fields: map[string]string{}}
					}
				}
			}
		}
		for _, w0 := range bsonWants() {
			want := w0
			d.seed = func(st *FState) {
				st.set(pin, AV{lo: want.t, hi: want.t})
				for i, q := range f.Params {
					if isValuePtr(q.Type()) && d.first != nil {
						// just made: not one of the shared constants
						for _, g := range d.live.consts {
							if _, ok := constKind(d.kinds, g); ok {
								st.fact[eqKey(ir.Params[i].canon(), g)] = false
							}
						}
					}
				}
			}
			cs := decCase{lead: want.t, pins: want.pins, label: want.label}
			cs.want.kind = "bson"
			if want.fail {
				cs.want.kind = "error"
			}
			d.done = func(cs decCase, st *FState, n *Node, s *decState, o *Node, w *wire, report func(string, ...interface{})) {
				d.bsonPath(want, used, st, n, s, o, w, report)
			}
			r.count("element types decoded")
			for _, b := range d.one(cs) {
				r.bad(p, "bson payload", b.pos, b.fn, "%s: %s", want.label, b.msg)
			}
		}
	}
}

func (d *decoding) bsonPath(want bsonWant, used map[int]bool, st *FState, n *Node, s *decState, o *Node, w *wire, report func(string, ...interface{})) {
	d.r.count("successful paths judged")
	for i, a := range n.Args {
		if !used[i] {
			continue
		}
		l := w.lin(a)
		if !known(l.String()) {
			d.r.count("sizes not followed")
			continue
		}
		diff := l.add(want.size, -1)
		if diff.isConst() && diff.c != 0 || !diff.isConst() && !d.equalHere(st, w, diff) {
			report("the payload is said to take %s bytes instead of %s", l, want.size)
		}
		d.r.count("sizes judged")
	}
	if want.typ == "" {
		return
	}
	c := s.obj[o]
	if c == nil || c.lost || !c.hasDt {
		d.r.count("successful paths not followed")
		return
	}
	got := c.dtv
	if c.dt != nil {
		v, ok := st.val(c.dt).exact()
		if !ok {
			if m, ok := st.val(c.dt).asMask(); !ok || m == 0 || m>>uint(d.vt[want.typ])&1 != 0 {
				d.r.count("successful paths not followed")
				return
			}
		}
		got = v
	}
	if got != d.vt[want.typ] {
		report("decodes to a value of type %s instead of %s", d.p.maskNames(1<<uint(got)), want.typ)
		return
	}
	d.r.sample(want.label + ": " + want.typ + " " + c.fields[want.field])
	if ext := c.fields["ExtType"]; want.ext >= 0 && !c.lost {
		if ext == "" {
			ext = "0 (not set)"
		}
		if known(ext) && ext != fmt.Sprint(want.ext) {
			report("the kind of the value is marked as %s instead of %d", ext, want.ext)
		}
	}
	if want.field != "" {
		have := c.fields[want.field]
		if have == "" {
			report("decodes to a value of type %s whose content is not set on this path; it should be %s", want.typ, want.must)
			return
		}
		if have != want.must && known(have) && have != "empty" {
			report("decodes to a %s with the content %s; it should be %s", want.typ, have, want.must)
		}
		if have == want.must {
			d.r.count("contents judged")
		}
	}
	if want.time {
		d.bsonTime(c, st, w, report)
	}
}

// equalHere: what was found equal to a constant on this path makes the difference 0 (or may).
func (d *decoding) equalHere(st *FState, w *wire, diff lin2) bool {
	for k, v := range st.fact {
		if v && k.op == token.EQL && k.b != nil && k.a.Typ != nil && isIntType(k.a.Typ) {
			q := w.lin(k.a).add(w.lin(k.b), -1)
			for _, s := range []int64{1, -1} {
				if x := diff.add(q, s); x.isConst() && x.c == 0 {
					return true
				}
			}
		}
	}
	for n, av := range st.av {
		c, ok := av.exact()
		if !ok || n.Op == OConst || n.Typ == nil || !isIntType(n.Typ) {
			continue
		}
		delete(st.av, n)
		q := w.lin(n).add(linConst(c), -1)
		st.av[n] = av
		for _, s := range []int64{1, -1} {
			if x := diff.add(q, s); x.isConst() && x.c == 0 {
				return true
			}
		}
	}
	return false
}

// bsonTime: where the instant of a date comes from.
func (d *decoding) bsonTime(c *objCells, st *FState, w *wire, report func(string, ...interface{})) {
	x := c.raw
	for k := 0; x != nil && k < 12; k++ {
		x = st.res(x)
		switch {
		case x.Op == OConvert:
			x = x.Args[0]
			continue
		case isExtFn(x, "(time.Time).UTC", "(time.Time).Local", "(time.Time).In"):
			x = x.Args[0]
			continue
		case isExtFn(x, "(time.Time).Add"):
			dur := st.res(x.Args[1])
			for dur.Op == OConvert {
				dur = st.res(dur.Args[0])
			}
			if dur.Op == OBin && dur.Tok == token.MUL {
				for i := range dur.Args {
					f, ok := st.val(dur.Args[1-i]).exact()
					v := st.val(dur.Args[i])
					if ok && f >= 1e6 && (v.hi > math.MaxInt64/f || v.lo < math.MinInt64/f) {
						report("the date is taken through nanoseconds in 64 bits (times %d): a date before 1678 or after 2262 is read wrong", f)
						return
					}
				}
			}
			d.r.count("dates not followed")
			return
		case isExtFn(x, "time.UnixMilli"):
			if b, ok := w.bits(x.Args[0]); ok && known(b.String()) && b.String() != byteBits(inByte, 0, 64, true, false).String() {
				report("the milliseconds of the date are %s", b)
			}
			d.r.count("dates judged")
			return
		case isExtFn(x, "time.Unix"):
			d.bsonUnix(st, w, x, report)
			return
		case x.Op == OCall && x.Callee != nil && len(x.Args) == 1 && !d.p.internal(x.Callee):
			x = x.Args[0]
			continue
		}
		break
	}
	d.r.count("dates not followed")
}

func (d *decoding) bsonUnix(st *FState, w *wire, x *Node, report func(string, ...interface{})) {
	whole := byteBits(inByte, 0, 64, true, false).String()
	strip := func(n *Node) *Node {
		n = st.res(n)
		for n.Op == OConvert && isIntType(n.Args[0].Typ) {
			n = st.res(n.Args[0])
		}
		return n
	}
	base := func(n *Node) bool {
		b, ok := w.bits(n)
		return ok && b.String() == whole
	}
	sec, ns := strip(x.Args[0]), strip(x.Args[1])
	if sec.Op == OBin && sec.Tok == token.QUO && base(sec.Args[0]) {
		if c, ok := st.val(sec.Args[1]).exact(); ok && c != 1000 {
			report("the seconds of the date are the number read / %d", c)
		}
		d.r.count("dates judged")
	} else if base(sec) {
		report("the number read is taken as seconds")
	} else if v, ok := st.val(sec).exact(); ok && v == 0 && ns.Op == OBin && ns.Tok == token.MUL && (base(ns.Args[0]) || base(ns.Args[1])) {
		report("the date is taken through nanoseconds in 64 bits: a date before 1678 or after 2262 is read wrong")
		return
	}
	if ns.Op == OBin && ns.Tok == token.MUL {
		a, b := strip(ns.Args[0]), strip(ns.Args[1])
		if a.Op == OConst {
			a, b = b, a
		}
		c, ok := st.val(b).exact()
		if ok && a.Op == OBin && a.Tok == token.REM && base(a.Args[0]) {
			if m, ok := st.val(a.Args[1]).exact(); ok && (m != 1000 || c != 1e6) {
				report("the nanoseconds of the date are the number read modulo %d, times %d", m, c)
			}
		}
	} else if ns.Op == OBin && ns.Tok == token.REM && base(ns.Args[0]) {
		report("what is left of the milliseconds is taken as nanoseconds")
	} else if ns.Op == OConst {
		if sec.Op == OBin {
			report("the milliseconds of the date are dropped")
		}
	}
}
