package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: the setters that take any Go value agree: what is stored for a type is the same as the root, under a key and at
// an index.
//
// Each setter is run once per Go type that any of them tells apart (its type assertions pinned), and once per kind of
// type for the others (the calls of reflect.Value.Kind pinned), and says what the value it fills is left with: its
// type, its content as a term over the Go value, and its members. The three must be equal.

func init() {
	register("C22", (*Check).settersAgree)
}

type setCell struct {
	typ, con string
	parent   *Node
	key      string
	raw      string // the key as it is, with the counters
	at       *Node
}

type setState struct {
	cells map[*Node]setCell
	all   bool // the whole is left to another of the setters
}

func (s *setState) Key() string {
	var ks []string
	for n, c := range s.cells {
		ks = append(ks, fmt.Sprint(n.ID, c.typ, c.con, c.key, c.raw))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";") + fmt.Sprint(s.all)
}

func (s *setState) Clone() CState {
	n := &setState{cells: map[*Node]setCell{}, all: s.all}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

type setter struct {
	p      *Program
	f      *ssa.Function
	ir     *IR
	live   *Flow
	target *Node // the receiver
	val    *Node // the Go value
	place  string
	vt     map[int64]string
	consts map[string]int64
	copies map[*Node]*Node // a local copy of a struct -> what was copied
	types  map[string]types.Type
	covers []*Cover
}

// setEffect: what a run leaves behind.
type setEffect struct {
	root map[string]*Node
	kids map[string]*Node
	lost bool
	all  bool
}

type setRun struct {
	name  string
	typ   types.Type   // the Go type, if one of those told apart
	ptr   bool         // reflect: the value is a pointer
	kind  reflect.Kind // reflect: the kind of the value, or of what it points to
	inner reflect.Kind // reflect: the kind of its members
	mar   bool         // it has its own method of conversion
	isnil bool
	truth bool // what a Boolean is
}

// anySetter: an API method of a value that stores any Go value; where it does.
func anySetter(f *ssa.Function) (arg int, place string) {
	if apiName(f) == "" || !recvIs(f, "*DxValue") || f.Signature.Results().Len() != 0 {
		return -1, ""
	}
	arg, place = -1, "root"
	for i, q := range f.Params[1:] {
		switch {
		case isEmptyIface(q.Type()):
			if arg >= 0 {
				return -1, ""
			}
			arg = i + 1
		case isString(q.Type()):
			place = "key"
		case isIntType(q.Type()):
			place = "index"
		}
	}
	return
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// itemSetter: makes a member or element of a type it is told; and puts a value there.
func itemMaker(f *ssa.Function) (tp, key int) {
	if !recvIs(f, "*DxValue") || f.Signature.Results().Len() != 1 || !isValuePtr(f.Signature.Results().At(0).Type()) {
		return -1, -1
	}
	tp, key = -1, -1
	for i, q := range f.Params[1:] {
		switch {
		case tname(q.Type()) == "ValueType":
			tp = i + 1
		case isString(q.Type()) || isIntType(q.Type()):
			if key >= 0 {
				return -1, -1
			}
			key = i + 1
		case isValuePtr(q.Type()):
			return -1, -1
		}
	}
	if tp < 0 || key < 0 {
		return -1, -1
	}
	return
}

func itemPutter(f *ssa.Function) (val, key int) {
	if apiName(f) == "" || !recvIs(f, "*DxValue") || f.Signature.Results().Len() != 0 {
		return -1, -1
	}
	val, key = -1, -1
	for i, q := range f.Params[1:] {
		switch {
		case isValuePtr(q.Type()):
			val = i + 1
		case isString(q.Type()) || isIntType(q.Type()):
			key = i + 1
		}
	}
	if val < 0 || key < 0 {
		return -1, -1
	}
	return
}

// basicSetter: API methods whose effect on their value is its type and a content that is their argument.
var basicSetter = map[string]string{"SetInt": "VT_Int", "SetFloat": "VT_Float", "SetString": "VT_String", "SetDouble": "VT_Double", "SetBool": "?", "SetTime": "VT_DateTime", "SetDelphiTime": "VT_DateTime", "SetBinary": "VT_Binary", "CopyFrom": "copy"}

func basicName(f *ssa.Function) string {
	if f == nil || apiName(f) == "" || !recvIs(f, "*DxValue") {
		return ""
	}
	if basicSetter[f.Name()] != "" {
		return f.Name()
	}
	return ""
}

// nilTest: a function of any value that tells whether it is a nil pointer.
func nilTest(f *ssa.Function) bool {
	sg := f.Signature
	return sg.Recv() == nil && sg.Params().Len() == 1 && isEmptyIface(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isBoolType(sg.Results().At(0).Type())
}

func (c *Check) settersAgree() *Result {
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	r := newResult()
	r.Min = 40
	r.Rules = []string{
		"for every Go type that the setters of any Go value tell apart, and for every kind of the types they take by reflection, the type of the value that is stored, its content as a term over the Go value, and the members it gets are the same as the root, under a key and at an index",
		"a Go type that one of them stores is stored by all of them",
	}
	r.Assumptions = []string{"the setters of one type of content (SetInt, SetString, …) leave their value with that type and content, SetDouble leaves a date a date (C12, C13)"}
	var ss []*setter
	for _, f := range p.Funcs {
		arg, place := anySetter(f)
		if arg < 0 {
			continue
		}
		s := &setter{p: p, f: f, place: place}
		if s.build(arg) {
			ss = append(ss, s)
			r.Functions[fnName(f)] = true
		}
	}
	if len(ss) < 2 {
		r.Counts["setters"] = len(ss)
		return r
	}
	types_ := map[string]types.Type{}
	for _, s := range ss {
		for n, t := range s.types {
			types_[n] = t
		}
	}
	var runs []setRun
	var names []string
	for n := range types_ {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := types_[n]
		e, ptr := t, false
		if pt, ok := t.(*types.Pointer); ok {
			e, ptr = pt.Elem(), true
		}
		runs = append(runs, setRun{name: n, typ: t, ptr: ptr, kind: kindOf(e)})
		if ptr {
			runs = append(runs, setRun{name: n + " (nil)", typ: t, ptr: ptr, kind: kindOf(e), isnil: true})
		}
	}
	kinds := []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String, reflect.Struct, reflect.Map, reflect.Slice, reflect.Array, reflect.Interface, reflect.Func, reflect.Chan, reflect.Complex128}
	for _, ptr := range []bool{false, true} {
		pre := ""
		if ptr {
			pre = "pointer to "
		}
		for _, k := range kinds {
			if k == reflect.Struct || k == reflect.Map {
				for _, in := range kinds {
					runs = append(runs, setRun{name: pre + k.String() + " of " + in.String(), ptr: ptr, kind: k, inner: in})
				}
				continue
			}
			runs = append(runs, setRun{name: "another " + pre + k.String() + " type", ptr: ptr, kind: k})
		}
		runs = append(runs, setRun{name: pre + "a type with its own method of conversion", ptr: ptr, kind: reflect.Struct, inner: reflect.Int, mar: true})
	}
	for _, run := range runs {
		if run.typ != nil && run.kind == reflect.Bool || run.inner == reflect.Bool {
			run.truth = true
			run.name += " that is true"
			runs = append(runs, run)
		}
	}
	for _, run := range runs {
		if o := os.Getenv("DXT"); o != "" && o != run.name {
			continue
		}
		es := make([]*setEffect, len(ss))
		for i, s := range ss {
			es[i] = s.run(run)
			if os.Getenv("DXDEBUG") != "" {
				fmt.Println("RUN", run.name, "::", s.f.Name(), keysOf(es[i].root), keysOf(es[i].kids), es[i].lost, es[i].all)
			}
		}
		r.count("runs of a type or kind")
		for _, what := range []string{"root", "kids"} {
			cmpEffects(p, r, run, ss, es, what)
		}
	}
	r.Counts["setters"] = len(ss)
	return r
}

func keysOf(m map[string]*Node) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		for k := reflect.Bool; k <= reflect.Complex128; k++ {
			if k.String() == u.Name() {
				return k
			}
		}
		return reflect.String
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Chan
}

func cmpEffects(p *Program, r *Result, run setRun, ss []*setter, es []*setEffect, what string) {
	get := func(e *setEffect) map[string]*Node {
		if what == "root" {
			return e.root
		}
		return e.kids
	}
	for _, e := range es {
		if e.lost && what == "root" || e.all {
			r.count("left to another setter or not followed")
			return
		}
	}
	union := map[string]bool{}
	for _, e := range es {
		for k := range get(e) {
			union[k] = true
		}
	}
	if len(union) == 0 {
		return
	}
	r.count("types and kinds compared")
	for _, k := range sortedKeys(union) {
		if strings.Contains(k, "?") {
			continue
		}
		var has, not []int
		for i, e := range es {
			if get(e)[k] != nil {
				has = append(has, i)
			} else {
				not = append(not, i)
			}
		}
		if len(not) == 0 {
			r.count("effects that agree")
			continue
		}
		// the odd one out is reported where it does it; what is missing in one at its head
		if len(has) <= len(not) {
			for _, i := range has {
				others := map[string]bool{}
				unknown := false
				for _, j := range not {
					for o := range get(es[j]) {
						others[o] = true
						unknown = unknown || strings.Contains(o, "?")
					}
				}
				if unknown {
					continue
				}
				n := get(es[i])[k]
				r.bad(p, "setters agree", n.Pos, ss[i].f.Name(), "%s: %s where %s gives %s", run.name, effWords(k), placesOf(ss, not), strings.Join(effList(others), " / "))
			}
			continue
		}
		for _, j := range not {
			unknown := false
			for o := range get(es[j]) {
				unknown = unknown || strings.Contains(o, "?")
			}
			if unknown {
				continue
			}
			pos, n := ss[j].f.Pos(), len(get(es[j]))
			have := map[string]bool{}
			for o, at := range get(es[j]) {
				have[o] = true
				if at != nil && !union[o+"\x00"] {
					pos = at.Pos
				}
			}
			if n == 0 {
				r.bad(p, "setters agree", pos, ss[j].f.Name(), "%s: nothing is stored, where %s gives %s", run.name, placesOf(ss, has), effWords(k))
				continue
			}
			r.bad(p, "setters agree", pos, ss[j].f.Name(), "%s: %s, where %s gives %s", run.name, strings.Join(effList(have), " / "), placesOf(ss, has), effWords(k))
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func effList(m map[string]bool) []string {
	var l []string
	for _, k := range sortedKeys(m) {
		l = append(l, effWords(k))
	}
	if l == nil {
		return []string{"nothing"}
	}
	return l
}

func effWords(k string) string {
	if k == "none" {
		return "nothing"
	}
	return k
}

func placesOf(ss []*setter, is []int) string {
	var l []string
	for _, i := range is {
		l = append(l, ss[i].f.Name())
	}
	return strings.Join(l, " and ")
}

func (s *setter) build(arg int) bool {
	p := s.p
	mid := inlineUpTo(260)
	pol := func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if !p.internal(g) || nilTest(g) || basicName(g) != "" || resetter(g) || maker(g) >= 0 || constOf(g) != "" {
			return false
		}
		if a, _ := anySetter(g); a >= 0 {
			return false
		}
		if t, _ := itemMaker(g); t >= 0 && (apiName(g) != "" && takesCache(g) || !wrapsMaker(p, g)) {
			return false
		}
		if t, _ := itemPutter(g); t >= 0 {
			return false
		}
		for i, q := range g.Params {
			if i > 0 && isEmptyIface(q.Type()) && isValuePtr(g.Params[0].Type()) && len(stack) < 4 {
				// a part of the setter
				for _, f := range stack {
					if f == g {
						return false
					}
				}
				return true
			}
		}
		return mid(ir, g, depth, stack)
	}
	ir := p.buildIR(s.f, pol)
	p.alias()
	ir.promote()
	s.ir = ir
	s.target, s.val = ir.Params[0].canon(), ir.Params[arg].canon()
	s.vt = map[int64]string{}
	for n, v := range p.valueTypes() {
		s.vt[v] = n
	}
	s.consts = p.sharedConstants()
	s.copies = map[*Node]*Node{}
	s.types = map[string]types.Type{}
	fl := &Flow{IR: ir}
	fl.prepare()
	full := map[*Loop]bool{}
	all := ir.covers()
	for _, cv := range all {
		full[cv.Loop] = full[cv.Loop] || cv.Full
	}
	for _, cv := range all {
		if !full[cv.Loop] {
			s.covers = append(s.covers, cv)
		}
	}
	asserts := 0
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OPhi && n.Typ != nil {
				fl.Keep(n)
			}
			if n.Op == OStore && n.Args[0].canon().Op == OAlloc {
				s.copies[n.Args[0].canon()] = n.Args[1]
			}
			if t := assertedType(n); t != nil && s.ofVal(n.Args[0]) && !types.IsInterface(t) {
				s.types[types.TypeString(t, func(p *types.Package) string { return p.Name() })] = t
				asserts++
			}
			if n.Op == OExtract || n.Op == OCall && isBoolNode(n) {
				fl.Keep(n.canon())
			}
			if n.Op == OCall && n.Typ != nil && (isValuePtr(n.Typ) || strings.HasSuffix(tname(n.Typ), "Value")) {
				fl.Keep(n.canon())
			}
		}
	}
	fl.Keep(s.target, s.val)
	s.live = fl
	return asserts > 0
}

func takesCache(f *ssa.Function) bool {
	for _, q := range f.Params {
		if tname(q.Type()) == "*ValueCache" {
			return true
		}
	}
	return false
}

// wrapsMaker: does nothing but call another maker of items (its own key and type are handed on).
func wrapsMaker(p *Program, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && p.internal(g) && g != f {
					if t, _ := itemMaker(g); t >= 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

// constOf: methods that ask whether a value may be written.
func constOf(f *ssa.Function) string {
	if recvIs(f, "*DxValue") && len(f.Params) == 1 && f.Signature.Results().Len() == 1 && isBoolType(f.Signature.Results().At(0).Type()) {
		return f.Name()
	}
	return ""
}

func assertedType(n *Node) types.Type {
	if n.Op != OTypeAssert || n.Typ == nil {
		return nil
	}
	if tp, ok := n.Typ.(*types.Tuple); ok && tp.Len() == 2 {
		return tp.At(0).Type()
	}
	return n.Typ
}

func (s *setter) ofVal(n *Node) bool {
	n = n.canon()
	for n.Op == OChangeIface || n.Op == OMakeIface {
		n = n.Args[0].canon()
	}
	return n == s.val
}

// term: a value, in words over the Go value that is stored.
func (s *setter) term(st *FState, n *Node, d int) string {
	n0 := n
	n = st.res(n)
	if d > 9 {
		return "?"
	}
	if n == s.val {
		return "val"
	}
	sub := func(i int) string { return s.term(st, n.Args[i], d+1) }
	addr := func(a *Node) string {
		a = st.res(a)
		for a.Op == OChangeType {
			a = st.res(a.Args[0])
		}
		switch a.Op {
		case OIndexAddr:
			return "elem(" + s.term(st, a.Args[0], d+1) + ")" + s.spot(st, a.Args[1], d)
		case OGlobal:
			return "global " + a.Name
		case OFieldAddr:
			return s.term(st, a.Args[0], d+1) + "." + fieldNameOf(a)
		case OAlloc:
			if c := s.copies[a]; c != nil {
				return s.term(st, c, d+1)
			}
			return "?"
		}
		return s.term(st, a, d+1)
	}
	switch n.Op {
	case OConst:
		if n.IsNil {
			return "nil"
		}
		if n.Const != nil {
			return n.Const.ExactString()
		}
	case OParam:
		switch {
		case n == s.target:
			return "target"
		case isString(n.Typ):
			return "key"
		case isIntType(n.Typ):
			return "idx"
		}
		return n.Name
	case OTypeAssert:
		return sub(0)
	case OExtract:
		x := st.res(n.Args[0])
		switch x.Op {
		case OTypeAssert:
			if n.Field == 0 {
				return s.term(st, x.Args[0], d+1)
			}
		case ONext:
			m := st.res(x.Args[0])
			if m.Op == ORange {
				return []string{"more", "rangekey", "rangeval"}[n.Field] + "(" + s.term(st, m.Args[0], d+1) + ")"
			}
		case OLookup:
			return "rangeval(" + s.term(st, x.Args[0], d+1) + ")"
		}
		return fmt.Sprintf("%s#%d", sub(0), n.Field)
	case OLookup:
		return "rangeval(" + sub(0) + ")"
	case OMakeIface, OChangeIface, OChangeType:
		return sub(0)
	case OSlice:
		return sub(0) + "[:]"
	case OLoad:
		return addr(n.Args[0])
	case OInit, OHavoc, OMemPhi:
		if strings.HasPrefix(n.Name, "global ") {
			return n.Name
		}
		x := n0
		for x.Op != OLoad && x.repl != nil {
			x = x.repl
		}
		if x.Op == OLoad {
			return addr(x.Args[0])
		}
		if l := n.MemLoc; l != nil && l.Root != nil {
			if l.Path == "" {
				return addr(l.Root)
			}
			if strings.HasPrefix(l.Path, "[") {
				return "elem(" + s.term(st, l.Root, d+1) + ")"
			}
			return s.term(st, l.Root, d+1) + l.Path
		}
	case OConvert:
		x := st.res(n.Args[0])
		if preserves(x.Typ, n.Typ) {
			return sub(0)
		}
		return tname(n.Typ) + "(" + sub(0) + ")"
	case OAlloc:
		if c := s.copies[n]; c != nil {
			return s.term(st, c, d+1)
		}
		return "?"
	case OField:
		return sub(0) + "." + fieldNameOf(n)
	case OIndex:
		return "elem(" + sub(0) + ")" + s.spot(st, n.Args[1], d)
	case OPhi:
		if isIntType(n.Typ) {
			return fmt.Sprint("i", n.ID)
		}
		return "?"
	case OUn:
		return n.Tok.String() + sub(0)
	case OBin:
		return sub(0) + n.Tok.String() + sub(1)
	case OBuiltin:
		var l []string
		for i := range n.Args {
			l = append(l, sub(i))
		}
		return n.Name + "(" + strings.Join(l, ",") + ")"
	case OCall:
		var l []string
		for i := range n.Args {
			l = append(l, sub(i))
		}
		nm := ""
		switch {
		case n.Callee != nil:
			nm = n.Callee.Name()
			if n.Callee.Pkg != nil && n.Callee.Pkg.Pkg.Path() == "reflect" || strings.HasPrefix(n.Callee.String(), "(reflect.") {
				nm = "reflect." + nm
			}
		case n.Method != nil:
			nm = "reflect." + n.Method.Name()
		default:
			return "?"
		}
		at := ""
		if (nm == "reflect.Index" || nm == "reflect.Field") && len(n.Args) == 2 {
			at = s.spot(st, n.Args[1], d)
		}
		return nm + "(" + strings.Join(l, ",") + ")" + at
	}
	if os.Getenv("DXWHY") != "" {
		fmt.Println("TERM", n, n.Op, n.MemLoc, n.Name)
	}
	return "?"
}

var counted = regexp.MustCompile(`^(-?\d+|i\d+)([+-]-?\d+)?$`)

// spot: the index of an element, kept beside it until it is known where the element goes.
func (s *setter) spot(st *FState, n *Node, d int) string {
	t := s.term(st, n, d+1)
	if counted.MatchString(t) {
		return "@[" + t + "]"
	}
	return ""
}

var spots = regexp.MustCompile(`@\[([^\]]*)\]`)

func spotSum(t string) (base string, k int64) {
	m := counted.FindStringSubmatch(t)
	if m == nil {
		return "?", 0
	}
	if m[2] != "" {
		k, _ = strconv.ParseInt(strings.Replace(strings.TrimPrefix(m[2], "+"), "--", "", 1), 10, 64)
	}
	if strings.HasPrefix(m[1], "i") {
		return m[1], k
	}
	c, _ := strconv.ParseInt(m[1], 10, 64)
	return "", k + c
}

// moved: what goes under a key, without the indexes; told apart if it is the element of another index than the key's.
func moved(con, raw string) string {
	keys := spots.FindAllStringSubmatch(raw, -1)
	if counted.MatchString(raw) {
		keys = [][]string{{"", raw}}
	}
	off := false
	for _, m := range spots.FindAllStringSubmatch(con, -1) {
		for _, k := range keys {
			a, x := spotSum(m[1])
			b, y := spotSum(k[1])
			// counters that are not the same one may run in step
			if a == b && x != y || a == "" && b != "" && b != "?" {
				off = true
			}
		}
	}
	con = spots.ReplaceAllString(con, "")
	if off {
		con = "another one of " + plain(con)
	}
	return con
}

// partly: why the loops around do not go through all that there is.
func (s *setter) partly(n *Node) string {
	for _, cv := range s.covers {
		if cv.Loop.Blocks[n.Blk] && !cv.Full && cv.Slice != nil && cv.Why != "" && cv.Why != "has a bound that is not a length" {
			return " in a loop that " + cv.Why
		}
	}
	return ""
}

var reflTerm = regexp.MustCompile(`reflect\.(\w+)`)

// plain: terms made of reflection are known by the method that gives the value only.
func plain(t string) string {
	if !strings.Contains(t, "reflect.") {
		return t
	}
	pre := ""
	if i := strings.Index(t, "reflect."); i > 0 && strings.HasSuffix(t[:i], "(") {
		pre = t[:i]
	}
	m := reflTerm.FindStringSubmatch(t)
	if i := strings.LastIndex(t, ")."); i >= 0 && !strings.Contains(t[i+1:], "(") {
		m[1] += t[i+1:]
	}
	if pre != "" {
		return pre + m[1] + ")"
	}
	return m[1]
}

// preserves: every value of one type is the same value of another one.
func preserves(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	if isFloatType(a) && isFloatType(b) {
		x, y := a.Underlying().(*types.Basic), b.Underlying().(*types.Basic)
		return x.Kind() == y.Kind() || y.Kind() == types.Float64
	}
	ba, ua, ok := intBits(a)
	bb, ub, ok2 := intBits(b)
	if !ok || !ok2 {
		return isString(a) && isString(b)
	}
	switch {
	case ua == ub:
		return ba <= bb
	case ua:
		return ba < bb
	}
	return false
}

// reflOf: what a reflect.Value is of: "val" the Go value itself, "elem" what it points to, "key" a key of a map,
// "in" something else (a member of it).
func (s *setter) reflOf(st *FState, n *Node, d int) string {
	n = st.res(n)
	if d > 8 {
		return "in"
	}
	if n.Op == OAlloc {
		if c := s.copies[n]; c != nil {
			return s.reflOf(st, c, d+1)
		}
	}
	if n.Op == OLoad || (n.Op == OInit || n.Op == OHavoc) && n.MemLoc != nil && n.MemLoc.Root != nil {
		t := s.term(st, n, 0)
		if strings.Contains(t, "MapKeys") {
			return "key"
		}
		return "in"
	}
	if n.Op != OCall || n.Callee == nil {
		return "in"
	}
	switch n.Callee.String() {
	case "reflect.ValueOf":
		if s.term(st, n.Args[0], 0) == "val" {
			return "val"
		}
	case "(reflect.Value).Elem", "reflect.Indirect":
		switch o := s.reflOf(st, n.Args[0], d+1); o {
		case "val", "elem":
			return "elem"
		default:
			return o
		}
	case "(reflect.Value).Key", "(*reflect.MapIter).Key":
		return "key"
	}
	if strings.Contains(n.Callee.Name(), "MapKeys") {
		return "key"
	}
	return "in"
}

func (s *setter) run(run setRun) *setEffect {
	e := &setEffect{root: map[string]*Node{}, kids: map[string]*Node{}}
	init := &setState{cells: map[*Node]setCell{}}
	init.cells[s.target] = setCell{typ: "old", con: "old"}
	fl := &Flow{IR: s.ir, Max: 48, Init: init, live: s.live.live, consts: s.live.consts, counted: s.live.counted, Limit: 30000}
	fl.Step = func(st *FState, n *Node) bool { return s.step(st, n, run, e, fl) }
	fl.run()
	if fl.Too {
		e.lost = true
	}
	return e
}

// object: the value a pointer is to.
func (s *setter) object(st *FState, n *Node) *Node {
	n = st.res(n)
	for n.Op == OChangeType {
		n = st.res(n.Args[0])
	}
	return n
}

func (s *setter) typeName(st *FState, n *Node) string {
	v := st.val(n)
	if v.lo == v.hi {
		if t := s.vt[v.lo]; t != "" {
			return t
		}
	}
	return "?"
}

// valueOf: what putting a value somewhere leaves there.
func (s *setter) valueOf(st *FState, n *Node) (typ, con string) {
	x := st.res(n)
	if x.Op == OInit && strings.HasPrefix(x.Name, "global ") {
		if k, ok := s.consts[strings.TrimPrefix(x.Name, "global ")]; ok && s.vt[k] != "" {
			return s.vt[k], "zero"
		}
		return "?", "?"
	}
	if c, ok := st.C.(*setState).cells[x]; ok {
		return c.typ, c.con
	}
	t := s.term(st, n, 0)
	return "as it is", "copy of " + t
}

func (s *setter) kidWords(c setCell) string {
	w := "member " + plain(spots.ReplaceAllString(c.key, "")) + ": " + c.typ
	if c.con != "zero" {
		con := moved(c.con, c.raw)
		if !strings.HasPrefix(con, "another one of ") {
			con = plain(con)
		}
		w += " with " + con
	}
	if c.at != nil {
		w += s.partly(c.at)
	}
	return w
}

func (s *setter) step(st *FState, n *Node, run setRun, e *setEffect, fl *Flow) bool {
	ss := st.C.(*setState)
	truth := func(b bool) bool { return st.set(n, boolAV(b)) }
	// member: a value is put at a place of a container
	member := func(parent *Node, key string, c setCell, id *Node) {
		p := s.object(st, parent)
		c.at = n
		c.raw = key
		if counted.MatchString(key) {
			key = "i"
		}
		if p == s.target && s.place != "root" {
			// the place that this setter is for
			want := map[string]string{"key": "key", "index": "idx"}[s.place]
			if key != want {
				c.con = "? stored under " + key
			}
			t := ss.cells[s.target]
			t.typ, t.con, t.at = c.typ, c.con, n
			if id != nil {
				ss.cells[id] = t
				delete(ss.cells, s.target)
				for k, v := range ss.cells {
					if v.key == "itself" {
						delete(ss.cells, k)
					}
				}
				t.key = "itself"
				ss.cells[id] = t
			} else {
				ss.cells[s.target] = t
			}
			return
		}
		pc, known := ss.cells[p]
		if !known {
			e.kids["?"] = n
			return
		}
		own := p == s.target && s.place == "root" || pc.key == "itself"
		c.key = key
		if !own {
			c.key = "? nested"
		}
		if id != nil {
			if old, has := ss.cells[id]; has && old.key != "itself" {
				e.kids[s.kidWords(old)] = old.at
			}
			c.parent = p
			ss.cells[id] = c
			return
		}
		e.kids[s.kidWords(c)] = n
	}
	set := func(obj *Node, typ, con string) {
		x := s.object(st, obj)
		c, known := ss.cells[x]
		if !known {
			e.kids["?"] = n
			return
		}
		c.typ, c.con, c.at = typ, con, n
		ss.cells[x] = c
	}
	if isBoolNode(n) && (n.Op == OExtract && n.Field == 0 || n.Op == OLoad || n.Op == OTypeAssert) && s.term(st, n, 0) == "val" {
		return truth(run.truth)
	}
	switch n.Op {
	case OExtract:
		x := st.res(n.Args[0])
		if t := assertedType(x); t != nil && n.Field == 1 {
			if s.ofVal(x.Args[0]) {
				if types.IsInterface(t) {
					return truth(run.mar)
				}
				return truth(run.typ != nil && types.Identical(t, run.typ))
			}
			if types.IsInterface(t) {
				return truth(false)
			}
		}
	case OBin:
		if n.Tok != token.EQL && n.Tok != token.NEQ || len(n.Args) != 2 {
			break
		}
		for i := 0; i < 2; i++ {
			a, b := s.term(st, n.Args[i], 0), s.term(st, n.Args[1-i], 0)
			if strings.HasPrefix(a, "global ") {
				if _, isC := s.consts[strings.TrimPrefix(a, "global ")]; isC {
					return truth(n.Tok == token.NEQ)
				}
				if types.IsInterface(n.Args[i].Typ) && strings.Contains(b, "reflect.") && strings.Contains(b, "Type") {
					is := run.typ != nil && strings.Contains(strings.ToLower(a), "time") && strings.HasSuffix(strings.TrimPrefix(run.name, "*"), "time.Time") && !strings.Contains(a, "Ptr")
					return truth(is == (n.Tok == token.EQL))
				}
			}
		}
	case OCall:
		g := n.Callee
		if g == nil {
			if n.Method != nil {
				switch n.Method.Name() {
				case "Implements", "AssignableTo":
					return truth(run.mar)
				case "Kind":
					return s.kind(st, n, run)
				}
				for i, a := range n.Args {
					if i > 0 && a.Typ != nil && isValuePtr(a.Typ) {
						set(a, "as converted", n.Method.Name()+"()")
					}
				}
			} else {
				e.kids["?"] = n
				e.lost = true
			}
			break
		}
		name := g.String()
		switch name {
		case "(reflect.Value).IsValid", "(reflect.Value).CanInterface":
			return truth(true)
		case "(reflect.Value).Bool":
			return truth(run.truth)
		case "(reflect.Value).IsNil":
			return truth(run.isnil)
		case "(reflect.Value).Kind":
			return s.kind(st, n, run)
		}
		if !s.p.internal(g) {
			break
		}
		if nilTest(g) {
			if s.ofVal(st.res(n.Args[0])) {
				return truth(run.isnil)
			}
			return truth(false)
		}
		if constOf(g) != "" {
			return truth(false)
		}
		if a, pl := anySetter(g); a >= 0 {
			t := s.term(st, n.Args[a], 0)
			key := ""
			for i, q := range g.Params[1:] {
				if isString(q.Type()) || isIntType(q.Type()) {
					key = s.term(st, n.Args[i+1], 0)
				}
			}
			if t == "val" {
				ss.all = true
				e.all = true
				break
			}
			if pl == "root" {
				set(n.Args[0], "as stored", "any "+t)
			} else {
				member(n.Args[0], key, setCell{typ: "as stored", con: "any " + t}, nil)
			}
			break
		}
		if nm := basicName(g); nm != "" && len(n.Args) >= 2 {
			x := s.object(st, n.Args[0])
			con := s.term(st, n.Args[1], 0)
			typ := basicSetter[nm]
			switch nm {
			case "SetBool":
				if b, ok := st.decide(n.Args[1], 0); ok {
					typ, con = map[bool]string{true: "VT_True", false: "VT_False"}[b], "zero"
				} else {
					typ, con = "VT_True or VT_False by "+con, "zero"
				}
			case "SetDouble", "SetBinary":
				keeps := map[string]string{"SetDouble": "VT_DateTime", "SetBinary": "VT_ExBinary"}[nm]
				switch c := ss.cells[x]; c.typ {
				case keeps:
					typ = keeps
				case "old":
					typ += ", or " + keeps + " if it was one before"
				}
				if nm == "SetBinary" && len(n.Args) > 2 {
					con = "the bytes of " + con + ", cloned: " + s.term(st, n.Args[2], 0)
				}
			case "SetTime":
				con = "Time2DelphiTime(" + con + ")"
			case "CopyFrom":
				typ, con = "as it is", "copy of "+con
			}
			set(n.Args[0], typ, con)
			break
		}
		if resetter(g) {
			set(n.Args[0], s.typeName(st, n.Args[1]), "zero")
			break
		}
		if t, k := itemMaker(g); t >= 0 {
			member(n.Args[0], s.term(st, n.Args[k], 0), setCell{typ: s.typeName(st, n.Args[t]), con: "zero"}, n)
			break
		}
		if v, k := itemPutter(g); v >= 0 {
			typ, con := s.valueOf(st, n.Args[v])
			x := s.object(st, n.Args[v])
			if _, has := ss.cells[x]; has && x != s.target {
				c := ss.cells[x]
				delete(ss.cells, x)
				c.typ, c.con = typ, con
			}
			member(n.Args[0], s.term(st, n.Args[k], 0), setCell{typ: typ, con: con}, nil)
			break
		}
		if maker(g) >= 0 {
			ss.cells[n] = setCell{typ: s.typeName(st, n.Args[maker(g)]), con: "zero", key: "made", at: n}
			break
		}
		for _, a := range n.Args {
			if a.Typ != nil && isValuePtr(a.Typ) && (g.Signature.Results().Len() == 0 || apiName(g) == "") {
				set(a, "?", "?")
				e.kids["?"] = n
			}
		}
	case OStore:
		a := st.res(n.Args[0])
		if a.Op != OFieldAddr || !strings.HasPrefix(fieldNameOf(a), "DxValue.") {
			break
		}
		x := s.object(st, a.Args[0])
		c, known := ss.cells[x]
		if !known {
			break
		}
		switch fieldNameOf(a) {
		case "DxValue.DataType":
			c.typ = s.typeName(st, n.Args[1])
		case "DxValue.fstrvalue", "DxValue.fbinary":
			c.con = s.term(st, n.Args[1], 0)
		default:
			c.con = "?"
		}
		c.at = n
		ss.cells[x] = c
	case OReturn:
		if ss.all {
			return false
		}
		done := false
		var ks []*Node
		for k := range ss.cells {
			ks = append(ks, k)
		}
		sortNodes(ks)
		for _, k := range ks {
			c := ss.cells[k]
			switch {
			case k == s.target && c.at != nil || c.key == "itself":
				w := c.typ
				if c.con != "zero" {
					w += " with " + plain(spots.ReplaceAllString(c.con, ""))
				}
				e.root[w] = c.at
				done = true
			case k == s.target, c.key == "made":
			default:
				e.kids[s.kidWords(c)] = c.at
			}
		}
		if !done {
			e.root["none"] = n
		}
	}
	return true
}

// kind: the kind of a type by reflection.
func (s *setter) kind(st *FState, n *Node, run setRun) bool {
	of := "in"
	x := n.Args[0]
	if y := st.res(x); y.Op == OCall && (y.Callee != nil && y.Callee.Name() == "Type" || y.Callee != nil && y.Callee.Name() == "TypeOf") && len(y.Args) == 1 {
		if y.Callee.Name() == "TypeOf" {
			if s.term(st, y.Args[0], 0) == "val" {
				of = "val"
			}
		} else {
			of = s.reflOf(st, y.Args[0], 0)
		}
	} else {
		of = s.reflOf(st, x, 0)
	}
	k := run.inner
	switch of {
	case "val":
		k = run.kind
		if run.ptr {
			k = reflect.Ptr
		}
	case "elem":
		k = run.kind
	case "key":
		k = reflect.String
	}
	if k == reflect.Invalid {
		return true
	}
	return st.set(n, AV{lo: int64(k), hi: int64(k)})
}

func (s *setState) Prune(keep func(*Node) bool) {}

func (s *setState) Reenter(st *FState, gone func(*Node) bool, phis map[*Node]*Node) {
}
