package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: loading in place replaces everything.
//
// Each function that decodes bytes into a value it is given is run once per type that this value may have before. Of
// each part of the value it is known on every path whether it is still the old one; where the function succeeds for a
// document that is not empty, the type and the parts that the new type shows must not be. What the builder of a
// format rejects behind the document the loader rejects as well.

func init() {
	register("C17", (*Check).loadingReplaces)
}

var replParts = []string{"DataType", "strkvs", "farr", "simpleV", "fstrvalue", "fbinary", "ExtType", "keysUnescaped"}

// what a type shows of a value.
func shownBy(t string) []string {
	switch t {
	case "VT_Object":
		return []string{"strkvs", "keysUnescaped"}
	case "VT_Array":
		return []string{"farr"}
	case "VT_Int", "VT_Double", "VT_Float", "VT_DateTime":
		return []string{"simpleV"}
	case "VT_String", "VT_RawString":
		return []string{"fstrvalue"}
	case "VT_Binary":
		return []string{"fbinary"}
	case "VT_ExBinary":
		return []string{"fbinary", "ExtType"}
	}
	return nil
}

type replState struct {
	typ   string          // the type as it stands, "?" if that is not known
	old   map[string]bool // parts that are still the old ones
	emp   map[string]bool // of these, the ones that are empty
	last  *Node           // where the content was stored last
	tails map[*Node]bool  // what calls handed back as the rest
}

func (s *replState) Key() string {
	k := s.typ
	if s.last != nil {
		k += fmt.Sprint(s.last.ID)
	}
	for _, f := range replParts {
		if s.old[f] {
			k += ";" + f
			if s.emp[f] {
				k += "0"
			}
		}
	}
	for _, f := range append([]string{"DataType"}, replParts...) {
		if s.old["shown "+f] {
			k += "!" + f
		}
	}
	if s.old["?"] {
		k += "?"
	}
	var ids []string
	for n := range s.tails {
		ids = append(ids, fmt.Sprint(n.ID))
	}
	sort.Strings(ids)
	return k + strings.Join(ids, ",")
}

func (s *replState) Clone() CState {
	n := &replState{typ: s.typ, last: s.last, old: map[string]bool{}, emp: map[string]bool{}, tails: map[*Node]bool{}}
	for k, v := range s.old {
		n.old[k] = v
	}
	for k, v := range s.emp {
		n.emp[k] = v
	}
	for k := range s.tails {
		n.tails[k] = true
	}
	return n
}

// inPlace: a function that decodes bytes into one value it is given; where that is.
func inPlace(f *ssa.Function) (val, in int) {
	val, in = -1, -1
	rs := f.Signature.Results()
	if rs.Len() == 0 || tname(rs.At(rs.Len()-1).Type()) != "error" {
		return -1, -1
	}
	for i := 0; i < rs.Len(); i++ {
		if isValuePtr(rs.At(i).Type()) {
			return -1, -1
		}
	}
	for i, q := range f.Params {
		switch {
		case isValuePtr(q.Type()):
			if val >= 0 {
				return -1, -1
			}
			val = i
		case isByteSlice(q.Type()) && in < 0:
			in = i
		}
	}
	if in < 0 {
		return -1, -1
	}
	return
}

type replSum struct {
	keeps map[string]map[string]token.Pos // type before -> parts that a success may leave as they are, though they are shown
	typ   token.Pos                       // where the type of a success depends on what it was before
	typed bool
	words string
	why   string
}

// replEffect: what a method without results leaves as it was.
type replEffect struct {
	old map[string]bool
	typ string
}

type lateWords struct {
	pos   token.Pos
	words string
}

type replacing struct {
	p       *Program
	r       *Result
	vt      map[int64]string
	sums    map[*ssa.Function]*replSum
	effs    map[string]*replEffect
	entry   bool
	late    map[string]lateWords
	skipped map[*ssa.Function]int
	irs     map[*ssa.Function]*IR
	prot    map[*ssa.Function]*Flow
	tail    map[*ssa.Function]string // what becomes of the rest: "checked", "dropped", "?"
}

func (c *Check) loadingReplaces() *Result {
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	p.alias()
	r := newResult()
	r.Min = 20
	r.Rules = []string{
		"an exported method that decodes bytes into its value succeeds for a document that is not empty only where the type of the value, and every part that this type shows, is no longer the old one, whatever type it had",
		"where the function that builds a value from a format tests what is left behind the document, the method that loads the format does",
	}
	r.Assumptions = []string{"a value holds content of its own type only (C12)", "documents are not changed while they are decoded"}
	x := &replacing{p: p, r: r, vt: map[int64]string{}, sums: map[*ssa.Function]*replSum{}, tail: map[*ssa.Function]string{}, effs: map[string]*replEffect{}, late: map[string]lateWords{}, skipped: map[*ssa.Function]int{}, irs: map[*ssa.Function]*IR{}, prot: map[*ssa.Function]*Flow{}}
	for n, v := range p.valueTypes() {
		x.vt[v] = n
	}
	for _, f := range p.Funcs {
		v, _ := inPlace(f)
		if v < 0 || apiName(f) == "" || !recvIs(f, "*DxValue") {
			continue
		}
		r.Functions[fnName(f)] = true
		r.count("loaders")
		x.sum(f, true)
	}
	x.tailsAgree()
	return r
}

// storesType: it or what it calls may set the type of a value.
func (x *replacing) storesType(g *ssa.Function) bool {
	m := x.p.mods[g]
	return m != nil && (m.all || m.classes["DxValue.DataType"])
}

func (x *replacing) build(f *ssa.Function) *IR {
	p := x.p
	mid := inlineUpTo(500)
	ir := p.buildIR(f, func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if !p.internal(g) || maker(g) >= 0 || constOf(g) != "" || depth > 5 {
			return false
		}
		if v, _ := inPlace(g); v >= 0 || x.sweeper(g) {
			return false // by what is known of it
		}
		touches, values := false, 0
		for _, q := range g.Params {
			if isValuePtr(q.Type()) {
				values++
			}
			if isValuePtr(q.Type()) || tname(q.Type()) == "*VObject" {
				touches = true
			}
		}
		if values > 1 && x.storesType(g) {
			return false // what it copies depends on a value that nothing is known of
		}
		if !touches {
			return fnSize(g) <= 40 && mid(ir, g, depth, stack)
		}
		return mid(ir, g, depth, stack)
	})
	ir.promote()
	return ir
}

// sweeper: a method of a value without results that has nothing but a type to go by (Reset, Clear).
func (x *replacing) sweeper(g *ssa.Function) bool {
	return recvIs(g, "*DxValue") && g.Signature.Results().Len() == 0 && (len(g.Params) == 1 || resetter(g)) && len(g.Blocks) > 0
}

func (x *replacing) of(f *ssa.Function) (*IR, *Flow) {
	if x.irs[f] != nil {
		return x.irs[f], x.prot[f]
	}
	ir := x.build(f)
	proto := &Flow{IR: ir}
	proto.prepare()
	for _, q := range ir.Params {
		proto.Keep(q.canon())
	}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OBuiltin && n.Name == "len" && isByteSlice(n.Args[0].Typ) {
				proto.Keep(n)
			}
			if n.Op == OExtract && n.Typ != nil && (tname(n.Typ) == "error" || isByteSlice(n.Typ)) {
				proto.Keep(n)
			}
		}
	}
	x.irs[f], x.prot[f] = ir, proto
	return ir, proto
}

func (x *replacing) start(tn string) *replState {
	init := &replState{typ: tn, old: map[string]bool{}, emp: map[string]bool{}, tails: map[*Node]bool{}}
	shows := map[string]bool{"DataType": true}
	for _, w := range shownBy(tn) {
		shows[w] = true
	}
	for _, w := range replParts {
		init.old[w] = true
		init.emp[w] = !shows[w] && w != "simpleV" && w != "ExtType" && w != "keysUnescaped"
	}
	return init
}

// effect: what a method without results leaves as it is, of a value of a type.
func (x *replacing) effect(g *ssa.Function, tn string, dt int64) *replEffect {
	key := fmt.Sprint(fnName(g), tn, dt)
	if e := x.effs[key]; e != nil {
		return e
	}
	e := &replEffect{old: map[string]bool{}}
	x.effs[key] = e
	ir, proto := x.of(g)
	target := ir.Params[0].canon()
	fl := &Flow{IR: ir, Max: 64, Init: x.start(tn), live: proto.live, consts: proto.consts, counted: proto.counted, Limit: 5000}
	fl.Seed = func(st *FState) {
		if len(ir.Params) > 1 && dt >= 0 {
			st.set(ir.Params[1].canon(), AV{lo: dt, hi: dt})
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		if n.Op != OReturn {
			return x.step(st, n, ir, target)
		}
		rs := st.C.(*replState)
		if !fl.unsure() {
			for w := range rs.old {
				e.old[w] = true
			}
		}
		if e.typ == "" {
			e.typ = rs.typ
		} else if e.typ != rs.typ {
			e.typ = "?"
		}
		return false
	}
	fl.run()
	if fl.Too || e.typ == "" {
		e.old, e.typ = map[string]bool{"?": true}, "?"
	}
	return e
}

// sum: what a success of a function leaves of the value.
func (x *replacing) sum(f *ssa.Function, entry bool) *replSum {
	if s := x.sums[f]; s != nil {
		return s
	}
	s := &replSum{keeps: map[string]map[string]token.Pos{}, why: "recursive"}
	x.sums[f] = s
	val, in := inPlace(f)
	ir, proto := x.of(f)
	target, doc := ir.Params[val].canon(), ir.Params[in].canon()
	vt := x.p.valueTypes()
	var names []string
	for n := range vt {
		names = append(names, n)
	}
	sort.Slice(names, func(a, b int) bool { return vt[names[a]] < vt[names[b]] })
	said := map[string]bool{}
	tail := ""
	type outcome struct {
		at    *Node
		types map[string]map[string]bool // type before -> types after
		bad   bool
	}
	outs := map[string]*outcome{}
	var order []string
	why := ""
	total := 0
	for _, tn := range names {
		if o := os.Getenv("DXT"); o != "" && o != tn {
			continue
		}
		tn := tn
		s.keeps[tn] = map[string]token.Pos{}
		x.entry = entry
		fl := &Flow{IR: ir, Max: 64, Init: x.start(tn), live: proto.live, consts: proto.consts, counted: proto.counted, Limit: 20000}
		fl.Step = func(st *FState, n *Node) bool {
			if n.Op != OReturn {
				return x.step(st, n, ir, target)
			}
			rs := st.C.(*replState)
			errv := n.Args[len(n.Args)-1]
			ok := st.nilState(errv)
			if ok < 0 || ok == 0 && !x.mayBeNil(st.res(errv)) {
				return false
			}
			for _, w := range replParts {
				if !rs.old["shown "+w] || fl.unsure() {
					continue
				}
				l := x.late[w]
				switch {
				case w == "DataType":
					s.typed, s.typ, s.words = true, l.pos, l.words
				default:
					s.keeps[tn][w] = l.pos
				}
				if entry && !said[w] {
					said[w] = true
					rule := "content replaced"
					if w == "DataType" {
						rule = "type replaced"
					}
					x.r.bad(x.p, rule, l.pos, fnName(f), "%s", l.words)
				}
			}
			id := fmt.Sprint(n.ID)
			if rs.last != nil {
				id += fmt.Sprint(" ", rs.last.ID)
			}
			total++
			if fl.unsure() {
				x.r.count("joined paths, not judged")
				if o := outs[id]; o != nil {
					o.bad = true
				} else {
					outs[id] = &outcome{bad: true}
				}
				return false
			}
			if x.emptyDoc(st, ir, doc) {
				x.r.count("empty documents")
				return false
			}
			x.r.count("successful returns judged")
			if entry {
				t := "dropped"
				if len(rs.tails) == 0 {
					t = ""
				}
				for y := range rs.tails {
					if x.emptyRest(st, ir, y) {
						t = "checked"
					}
				}
				if t != "" && tail != "dropped" {
					tail = t
				}
			}
			if os.Getenv("DXDEBUG") != "" {
				fmt.Println("RET", f.Name(), tn, x.p.pos(n.Pos), rs.Key(), ok, st.res(errv))
			}
			if rs.old["?"] {
				return false
			}
			o := outs[id]
			if o == nil {
				at := n
				if rs.last != nil {
					at = rs.last
				}
				o = &outcome{at: at, types: map[string]map[string]bool{}}
				outs[id] = o
				order = append(order, id)
			}
			if o.types == nil {
				return false
			}
			if o.types[tn] == nil {
				o.types[tn] = map[string]bool{}
			}
			o.types[tn][rs.typ] = true
			for _, w := range shownBy(rs.typ) {
				if !rs.old[w] || rs.emp[w] {
					continue
				}
				if _, has := s.keeps[tn][w]; !has {
					s.keeps[tn][w] = n.Pos
				}
				if entry && !said[w] {
					said[w] = true
					at := posIn(n.Blk)
					if at == nil {
						at = n
					}
					x.r.bad(x.p, "content replaced", at.Pos, x.where(f, n), "a document that is not empty is loaded into %s, and then the value shows, as %s, the %s of before", tn, rs.typ, w)
				}
			}
			return false
		}
		fl.run()
		if fl.Too {
			x.r.count("types with too many paths")
			why = "too many paths"
		}
	}
	for _, id := range order {
		o := outs[id]
		if os.Getenv("DXDEBUG") != "" {
			fmt.Println("PLACE", f.Name(), id, o.bad, why, len(o.types))
		}
		if o.bad || why != "" || len(o.types) < 2 {
			continue
		}
		x.r.count("places whose type was compared")
		all := map[string]int{}
		for _, ts := range o.types {
			for t := range ts {
				all[t]++
			}
		}
		if all["?"] > 0 {
			continue
		}
		for _, tn := range names {
			ts := o.types[tn]
			if ts == nil || len(ts) == len(all) {
				continue
			}
			s.typed = true
			if s.words == "" {
				var other []string
				for t := range all {
					if !ts[t] {
						other = append(other, t)
					}
				}
				sort.Strings(other)
				if len(other) > 3 {
					other = append(other[:3], "...")
				}
				s.typ, s.words = o.at.Pos, fmt.Sprintf("the type that a document which is not empty gives depends on what it is loaded into: %s gives %s, others %s", tn, strings.Join(sortedKeys(ts), " or "), strings.Join(other, ", "))
				if entry {
					x.r.bad(x.p, "type replaced", s.typ, x.where(f, o.at), "%s", s.words)
				}
			}
		}
	}
	if entry {
		x.tail[f] = tail
	}
	s.why = why
	if total == 0 {
		s.why = "no success followed"
	}
	return s
}

// mayBeNil: the error is what a function gave that does not always give one.
func (x *replacing) mayBeNil(e *Node) bool {
	k := -1
	if e.Op == OExtract {
		k, e = e.Field, e.Args[0].canon()
	}
	if e.Op != OCall || e.Callee == nil || !x.p.internal(e.Callee) {
		return false
	}
	if k < 0 {
		k = 0
	}
	var nilable func(v ssa.Value, d int) bool
	var gives func(g *ssa.Function, k, d int) bool
	nilable = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch y := v.(type) {
		case *ssa.Const:
			return y.IsNil()
		case *ssa.Phi:
			for _, a := range y.Edges {
				if nilable(a, d+1) {
					return true
				}
			}
		case *ssa.Extract:
			if c, ok := y.Tuple.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					return gives(g, y.Index, d+1)
				}
				return true
			}
		case *ssa.Call:
			if g := y.Call.StaticCallee(); g != nil {
				return gives(g, 0, d+1)
			}
		}
		return false
	}
	gives = func(g *ssa.Function, k, d int) bool {
		if d > 6 {
			return false
		}
		if !x.p.internal(g) {
			return g.Pkg != nil && g.Pkg.Pkg.Path() != "errors" && g.Pkg.Pkg.Path() != "fmt"
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(r.Results) && nilable(r.Results[k], d) {
				return true
			}
		}
		return false
	}
	return gives(e.Callee, k, 0)
}

func (x *replacing) where(f *ssa.Function, n *Node) string {
	if n.Frame != nil {
		return n.Frame.chain(x.p)
	}
	return fnName(f)
}

// emptyDoc: the path knows that there is nothing to decode.
func (x *replacing) emptyDoc(st *FState, ir *IR, doc *Node) bool {
	return x.lenZero(st, ir, func(n *Node) bool { return n == doc })
}

// emptyRest: the path knows that nothing is left of what a call handed back.
func (x *replacing) emptyRest(st *FState, ir *IR, rest *Node) bool {
	var from func(n *Node, d int) bool
	from = func(n *Node, d int) bool {
		n = st.res(n)
		if n == rest {
			return true
		}
		if d > 8 {
			return false
		}
		switch n.Op {
		case OSlice, OChangeType, OConvert:
			return from(n.Args[0], d+1)
		case OExtract:
			if c := st.res(n.Args[0]); c.Op == OCall {
				for _, a := range c.Args {
					if a.Typ != nil && isByteSlice(a.Typ) && from(a, d+1) {
						return true
					}
				}
			}
		case OCall:
			for _, a := range n.Args {
				if a.Typ != nil && isByteSlice(a.Typ) && from(a, d+1) {
					return true
				}
			}
		case OPhi:
			for _, a := range n.Args {
				if from(a, d+1) {
					return true
				}
			}
		}
		return false
	}
	return x.lenZero(st, ir, func(n *Node) bool { return from(n, 0) })
}

func (x *replacing) lenZero(st *FState, ir *IR, is func(*Node) bool) bool {
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OBuiltin && n.Name == "len" && n.repl == nil {
				if v := st.val(n); v.hi == 0 && v.lo == 0 && is(st.res(n.Args[0])) {
					return true
				}
			}
		}
	}
	return false
}

func partOf(l Loc) string {
	switch l.Class {
	case "DxValue.DataType", "DxValue.farr", "DxValue.fstrvalue", "DxValue.fbinary", "DxValue.ExtType", "DxValue.simpleV":
		return strings.TrimPrefix(l.Class, "DxValue.")
	case "VObject.strkvs", "VObject.keysUnescaped":
		return strings.TrimPrefix(l.Class, "VObject.")
	}
	return ""
}

func (x *replacing) step(st *FState, n *Node, ir *IR, target *Node) bool {
	rs := st.C.(*replState)
	fresh := func(w string) { delete(rs.old, w) }
	set := func(m *Node, b bool) bool { return st.set(m, boolAV(b)) }
	mine := func(a *Node) bool {
		a = st.res(a)
		for a.Op == OFieldAddr || a.Op == OChangeType {
			a = st.res(a.Args[0])
		}
		return a == target
	}
	switch n.Op {
	case OLoad:
		l := ir.loc(n.Args[0])
		if l.Root != nil && l.Class == "DxValue.DataType" && st.res(l.Root) == target {
			if y := st.res(n); y.Op != OConst && rs.typ != "?" {
				for v, name := range x.vt {
					if name == rs.typ {
						return st.set(n, AV{lo: v, hi: v})
					}
				}
			}
		}
	case OStore:
		a := st.res(n.Args[0])
		if a == target {
			rs.old, rs.emp, rs.typ = map[string]bool{"?": true}, map[string]bool{}, "?"
			break
		}
		l := ir.loc(n.Args[0])
		if l.Root == nil || st.res(l.Root) != target {
			break
		}
		w := partOf(l)
		switch w {
		case "":
			if l.Class == "DxValue.fobject" {
				fresh("strkvs")
				fresh("keysUnescaped")
			} else if strings.Contains(l.Path, fmt.Sprintf(".%d", x.p.dxField("simpleV"))) {
				fresh("simpleV")
				rs.last = n
			}
		case "DataType":
			v := st.val(n.Args[1])
			rs.typ = "?"
			if v.lo == v.hi && x.vt[v.lo] != "" {
				rs.typ = x.vt[v.lo]
			}
			fresh(w)
		case "strkvs", "farr", "fbinary":
			if w == "fbinary" {
				rs.last = n
			}
			if !x.stillOld(st, ir, n.Args[1], target, 0) {
				fresh(w)
			} else if rs.emp[w] {
				fresh(w) // nothing of before is in it
			}
		default:
			if w == "fstrvalue" || w == "simpleV" {
				rs.last = n
			}
			fresh(w)
		}
	case OCall:
		g := n.Callee
		touched := -1
		for i, a := range n.Args {
			if a.Typ != nil && (isValuePtr(a.Typ) || tname(a.Typ) == "*VObject" || strings.HasPrefix(tname(a.Typ), "*")) && mine(a) {
				touched = i
			}
		}
		if g == nil {
			if touched >= 0 {
				rs.old["?"], rs.typ = true, "?"
			}
			break
		}
		if !x.p.internal(g) {
			// a call of the standard library that is given the memory
			for _, a := range n.Args {
				y := st.res(a)
				if y.Op == OSlice && mine(y.Args[0]) {
					fresh("simpleV")
				}
			}
			break
		}
		if constOf(g) != "" && touched >= 0 {
			return set(n, false)
		}
		v, _ := inPlace(g)
		if touched < 0 {
			if v < 0 && x.storesType(g) && !x.decodesNew(g) {
				// it may reach the value by another way
				if rs.old["DataType"] && !rs.old["?"] && x.skips(g) && x.lastWord(n) {
					rs.old["shown DataType"] = true
					x.late["DataType"] = lateWords{n.Pos, "a document in which " + fnName(g) + " finds nothing to store succeeds, and the value keeps the type of before"}
				}
				rs.old["?"] = true
			}
			x.rest(n, ir, rs)
			break
		}
		x.rest(n, ir, rs)
		if x.sweeper(g) {
			dt := int64(-1)
			if len(n.Args) > 1 {
				dt = inf
				if y := st.val(n.Args[1]); y.lo == y.hi {
					dt = y.lo
				}
			}
			if rs.typ == "?" || dt == inf {
				// what it leaves whatever the type
				var keep map[string]bool
				dts := []int64{dt}
				if dt == inf {
					dts = nil
					for v := range x.vt {
						dts = append(dts, v)
					}
				}
				typ := ""
				for _, tn := range x.vt {
					for _, d := range dts {
						e := x.effect(g, tn, d)
						if keep == nil {
							keep = map[string]bool{}
							for w := range e.old {
								keep[w] = true
							}
						}
						for w := range keep {
							if !e.old[w] {
								delete(keep, w)
							}
						}
						if typ == "" {
							typ = e.typ
						} else if typ != e.typ {
							typ = "?"
						}
					}
				}
				for _, w := range replParts {
					if !keep[w] {
						fresh(w)
					}
				}
				rs.typ, rs.last = typ, nil
				break
			}
			e := x.effect(g, rs.typ, dt)
			for _, w := range replParts {
				if !e.old[w] {
					fresh(w)
				}
			}
			if e.old["?"] {
				rs.old["?"] = true
			}
			rs.typ, rs.last = e.typ, nil
			break
		}
		if v == touched {
			was := x.entry
			s := x.sum(g, false)
			x.entry = was
			if s.why == "" {
				if s.typed && rs.old["DataType"] {
					rs.old["shown DataType"] = true
					x.late["DataType"] = lateWords{s.typ, s.words}
				}
				for _, w := range replParts {
					if at, keeps := s.keeps[rs.typ][w]; keeps && rs.old[w] && !rs.emp[w] {
						rs.old["shown "+w] = true
						x.late[w] = lateWords{at, "what is loaded may show the " + w + " of before"}
					} else if keeps {
						continue
					}
					fresh(w)
				}
				fresh("DataType")
				rs.typ, rs.last = "?", n
				break
			}
			rs.old["?"], rs.typ = true, "?"
			break
		}
		if x.storesType(g) {
			rs.old["?"], rs.typ = true, "?"
		}
	}
	return true
}

// lastWord: after a call nothing but its error is asked.
func (x *replacing) lastWord(n *Node) bool {
	seen := map[*Block]bool{}
	todo := []*Block{n.Blk}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		for _, m := range b.Nodes {
			if b == n.Blk && m.Idx <= n.Idx {
				continue
			}
			switch m.Op {
			case OIf:
				c := m.Args[0].canon()
				if c.Op != OBin || len(c.Args) != 2 || tname(c.Args[0].Typ) != "error" {
					return false
				}
			case OCall:
				if m.Callee == nil || x.p.internal(m.Callee) && x.storesType(m.Callee) {
					return false
				}
			case OStore:
				if l := x.classOf(m); l == "DxValue.DataType" {
					return false
				}
			}
		}
		todo = append(todo, b.Succs...)
	}
	return true
}

func (x *replacing) classOf(m *Node) string {
	a := m.Args[0].canon()
	if a.Op == OFieldAddr {
		return fieldNameOf(a)
	}
	return ""
}

// skips: a function that stores a type in some of its calls may succeed though the call it makes for a part of the
// document has stored none.
func (x *replacing) skips(g *ssa.Function) bool {
	return x.skip(g, 0) == 2
}

// skip: 0 it always stores, 1 it may end without having looked at anything, 2 it may end without storing.
func (x *replacing) skip(g *ssa.Function, d int) int {
	if v, ok := x.skipped[g]; ok {
		return v
	}
	x.skipped[g] = 0
	if resetter(g) || maker(g) >= 0 || d > 6 || len(g.Blocks) == 0 {
		return 0
	}
	type at struct {
		b    *ssa.BasicBlock
		look bool
	}
	seen := map[at]bool{}
	best := 0
	todo := []at{{g.Blocks[0], false}}
	for len(todo) > 0 {
		a := todo[0]
		todo = todo[1:]
		if seen[a] {
			continue
		}
		seen[a] = true
		stop := false
		for _, in := range a.b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if c, _, _ := classOfAddr(y.Addr); c == "DxValue.DataType" || c == "DxValue" || c == "*DxValue" {
					stop = true
				}
			case *ssa.Call:
				h := y.Call.StaticCallee()
				if h == nil || !x.p.internal(h) || !x.storesType(h) {
					break
				}
				if x.skip(h, d+1) == 0 {
					stop = true
				} else {
					a.look = true
				}
			case *ssa.Return:
				if k := len(y.Results) - 1; k >= 0 && tname(y.Results[k].Type()) == "error" {
					c, isC := y.Results[k].(*ssa.Const)
					_, isPhi := y.Results[k].(*ssa.Phi)
					if !(isC && c.IsNil()) && !(isPhi && d == 0) {
						break
					}
				}
				if d > 0 || a.look {
					best = 2
				} else if best == 0 {
					best = 1
				}
			}
			if stop {
				break
			}
		}
		if stop {
			continue
		}
		for _, b := range a.b.Succs {
			todo = append(todo, at{b, a.look})
		}
	}
	x.skipped[g] = best
	return best
}

// decodesNew: it makes values, and is not given one.
func (x *replacing) decodesNew(g *ssa.Function) bool {
	if g.Signature.Recv() != nil {
		return tname(g.Params[0].Type()) == "*ValueCache"
	}
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isValuePtr(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

// rest: calls that are given a part of the document and hand back bytes and an error.
func (x *replacing) rest(n *Node, ir *IR, rs *replState) {
	if !x.entry {
		return
	}
	sg := n.Callee.Signature
	k, e := -1, -1
	for i := 0; i < sg.Results().Len(); i++ {
		switch {
		case isByteSlice(sg.Results().At(i).Type()):
			k = i
		case tname(sg.Results().At(i).Type()) == "error":
			e = i
		}
	}
	if k < 0 || e < 0 {
		return
	}
	for _, b := range ir.Blocks {
		for _, m := range b.Nodes {
			if m.Op == OExtract && m.Args[0].canon() == n.canon() && m.Field == k {
				rs.tails = map[*Node]bool{m.canon(): true}
			}
		}
	}
}

// stillOld: a slice that goes on with the members of before.
func (x *replacing) stillOld(st *FState, ir *IR, n *Node, target *Node, d int) bool {
	m := st.res(n)
	if d > 8 {
		return true
	}
	switch m.Op {
	case OConst, OMakeSlice, OAlloc:
		return false
	case OSlice:
		if m.Hi {
			k := 1
			if m.Lo {
				k = 2
			}
			if v := st.val(m.Args[k]); v.lo == 0 && v.hi == 0 {
				return false
			}
		}
		return x.stillOld(st, ir, m.Args[0], target, d+1)
	case OBuiltin:
		if m.Name == "append" {
			return x.stillOld(st, ir, m.Args[0], target, d+1)
		}
	case OLoad, OInit, OHavoc, OMemPhi:
		l := m.MemLoc
		if m.Op == OLoad {
			y := ir.loc(m.Args[0])
			l = &y
		}
		if l != nil && l.Root != nil {
			if st.res(l.Root) == target {
				if w := partOf(*l); w != "" {
					return st.C.(*replState).old[w]
				}
				return true
			}
			return false
		}
		return true
	case OCall, OExtract:
		return false
	}
	return true
}

// tailsAgree: the rest behind the document.
func (x *replacing) tailsAgree() {
	p := x.p
	for _, f := range p.Funcs {
		if apiName(f) == "" || f.Signature.Recv() != nil || len(f.Params) == 0 || !isByteSlice(f.Params[0].Type()) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isValuePtr(rs.At(0).Type()) || tname(rs.At(1).Type()) != "error" {
			continue
		}
		i := strings.Index(f.Name(), "From")
		if i < 0 {
			continue
		}
		format := f.Name()[i:]
		for g, t := range x.tail {
			if !strings.HasSuffix(g.Name(), format) {
				continue
			}
			x.r.count("loaders compared with their builder")
			b := x.builderTail(f)
			if os.Getenv("DXDEBUG") != "" {
				fmt.Println("TAIL", f.Name(), b, g.Name(), t)
			}
			if b == "checked" && t == "dropped" {
				x.r.bad(p, "rest rejected", g.Pos(), fnName(g), "what follows the document is ignored, where %s rejects it", f.Name())
			}
			if t == "checked" && b == "dropped" {
				x.r.bad(p, "rest rejected", f.Pos(), fnName(f), "what follows the document is ignored, where %s rejects it", g.Name())
			}
		}
	}
}

func (x *replacing) builderTail(f *ssa.Function) string {
	ir, proto := x.of(f)
	x.entry = true
	fl := &Flow{IR: ir, Max: 64, Init: x.start("?"), live: proto.live, consts: proto.consts, counted: proto.counted, Limit: 60000}
	tail := ""
	fl.Step = func(st *FState, n *Node) bool {
		rs := st.C.(*replState)
		if n.Op == OCall && n.Callee != nil && x.p.internal(n.Callee) {
			x.rest(n, ir, rs)
		}
		if n.Op != OReturn {
			return true
		}
		if fl.unsure() {
			tail = "dropped?"
			return false
		}
		errv := n.Args[len(n.Args)-1]
		if ok := st.nilState(errv); ok < 0 || ok == 0 && !x.mayBeNil(st.res(errv)) {
			return false
		}
		t := "dropped"
		if len(rs.tails) == 0 {
			t = ""
		}
		for y := range rs.tails {
			if x.emptyRest(st, ir, y) {
				t = "checked"
			}
		}
		if t != "" && tail != "dropped" && tail != "dropped?" {
			tail = t
		}
		return false
	}
	fl.run()
	return tail
}

