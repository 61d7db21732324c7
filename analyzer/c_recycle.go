package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10: recycled objects carry nothing over from their previous use.

func init() {
	register("C10", (*Check).recycled)
}

type recState struct {
	set   map[string]bool // "object|field": written since the object was taken up
	ext   map[*Node]bool  // slices that were lengthened into old memory
	freed map[*Node]*Node // objects given back -> where
	def   map[*Node]*Node // objects that a deferred call gives back
	from  map[*Node]*Node // objects put into a pool that were read from a field -> the field's owner
	cut   map[*Node]*Node // caches whose values were all given up -> where
	owned map[*Node]*Node // caches that were entrusted to a value -> where
}

func newRecState() *recState {
	return &recState{map[string]bool{}, map[*Node]bool{}, map[*Node]*Node{}, map[*Node]*Node{}, map[*Node]*Node{}, map[*Node]*Node{}, map[*Node]*Node{}}
}

func (s *recState) Key() string {
	var l []string
	for k := range s.set {
		l = append(l, k)
	}
	for n := range s.ext {
		l = append(l, fmt.Sprintf("x%d", n.ID))
	}
	for i, m := range []map[*Node]*Node{s.freed, s.def, s.from, s.cut, s.owned} {
		for a, b := range m {
			l = append(l, fmt.Sprintf("m%d.%d.%d", i, a.ID, b.ID))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (s *recState) Clone() CState {
	n := newRecState()
	for k := range s.set {
		n.set[k] = true
	}
	for k := range s.ext {
		n.ext[k] = true
	}
	to := []map[*Node]*Node{n.freed, n.def, n.from, n.cut, n.owned}
	for i, m := range []map[*Node]*Node{s.freed, s.def, s.from, s.cut, s.owned} {
		for a, b := range m {
			to[i][a] = b
		}
	}
	return n
}

func (s *recState) Prune(keep func(*Node) bool) {}

func (s *recState) Reenter(st *FState, gone func(*Node) bool, phis map[*Node]*Node) {
	for _, m := range []map[*Node]*Node{s.freed, s.def, s.from, s.cut, s.owned} {
		for a := range m {
			if gone(a) {
				delete(m, a)
			}
		}
	}
}

// leaves: the fields of a struct type, those of structs in it one by one: class -> ok
func leaves(t types.Type) []string {
	s := structOf(t)
	if s == nil {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if n, ok := f.Type().(*types.Named); ok && structOf(n) != nil && n.Obj().Pkg() == f.Pkg() {
			out = append(out, leaves(f.Type())...)
			continue
		}
		out = append(out, tname(t)+"."+f.Name())
	}
	return out
}

func poolCall(n *Node) (name string, pool *Node) {
	if (n.Op == OCall || n.Op == ODefer) && n.Callee != nil && len(n.Args) > 0 {
		switch extFnName(n.Callee) {
		case "sync.Pool.Get", "sync.Pool.Put":
			return n.Callee.Name(), n.Args[0].canon()
		}
	}
	return "", nil
}

func (c *Check) recycled() *Result {
	r := newResult()
	r.Min = 1
	r.Rules = []string{
		"a slot of a slice that is lengthened into memory used before has every field overwritten before the function returns, whatever the path, and the type it is given is the one asked for",
		"resetting a value overwrites every field but its cache",
		"every field of what comes out of a pool was overwritten on every path to the call that put it there, or is on every path from the call that got it",
		"what was given back is not read, written, handed on, returned or given back again afterwards; the field it was taken from is cleared",
		"all values of a cache are given up only when the cache goes back to the pool; a cache is entrusted to one value only",
	}
	r.Assumptions = []string{"the caller of an exported function that gives something back does not use it afterwards"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	rc := &recCheck{p: p, r: r, rel: map[*ssa.Function]map[int]bool{}, put: map[string]map[string]string{}, get: map[string]map[string]string{}, types: map[string]types.Type{}, seen: map[string]bool{}, extMiss: map[*ssa.Function]bool{}}
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if p.internal(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	// what gives back which of its arguments
	for again := true; again; {
		again = false
		for _, f := range fs {
			if f.Signature.Results().Len() > 0 {
				continue
			}
			for i := range releasedParams(rc, f) {
				if rc.rel[f] == nil {
					rc.rel[f] = map[int]bool{}
				}
				if !rc.rel[f][i] {
					rc.rel[f][i] = true
					again = true
				}
			}
		}
	}
	for _, f := range fs {
		rc.fn(f, nil)
	}
	for k, m := range rc.put {
		var miss []string
		for fld := range m {
			if g, ok := rc.get[k]; ok && g[fld] == "" {
				continue
			}
			miss = append(miss, fld)
		}
		sort.Strings(miss)
		for _, fld := range miss {
			at := m[fld]
			r.bad(p, "pool", rc.at[at].Pos(), fnName(rc.at[at]), "%s may come out of the pool as the previous user left it: it is not overwritten on every path to the Put, nor after every Get", fld)
		}
	}
	for k := range rc.put {
		r.sample("pool " + k)
	}
	return r
}

type recCheck struct {
	p     *Program
	r     *Result
	rel   map[*ssa.Function]map[int]bool
	put   map[string]map[string]string // pool -> field -> function in which it is not written
	get   map[string]map[string]string
	types map[string]types.Type
	at    map[string]*ssa.Function
	seen  map[string]bool
	up    map[*ssa.Function]map[string]bool

	extMiss map[*ssa.Function]bool // seen from a caller, a slot stays as it was
}

// releasedParams: by value flow without paths.
func releasedParams(rc *recCheck, f *ssa.Function) map[int]bool {
	out := map[int]bool{}
	var root func(v ssa.Value, d int) int
	root = func(v ssa.Value, d int) int {
		if d > 12 {
			return -1
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, q := range f.Params {
				if q == x {
					return i
				}
			}
		case *ssa.MakeInterface:
			return root(x.X, d+1)
		case *ssa.ChangeType:
			return root(x.X, d+1)
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				// what a value owns goes back: so does the value
				if strings.HasSuffix(fa.X.Type().String(), "DxValue") {
					return root(fa.X, d+1)
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if i := root(e, d+1); i >= 0 {
					return i
				}
			}
		}
		return -1
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, args := callOf(in)
			if c == nil {
				continue
			}
			if extFnName(c) == "sync.Pool.Put" && len(args) == 2 {
				if i := root(args[1], 0); i >= 0 {
					out[i] = true
				}
			}
			for j := range rc.rel[c] {
				if j < len(args) {
					if i := root(args[j], 0); i >= 0 {
						out[i] = true
					}
				}
			}
		}
	}
	return out
}

// own: what of interest a function does itself. 2: takes up or gives back objects, 1: has something given back.
func (rc *recCheck) own(f *ssa.Function) int {
	k := 0
	if recvIs(f, "*DxValue") && resetter(f) {
		k = 2
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, _ := callOf(in); c != nil {
				switch extFnName(c) {
				case "sync.Pool.Put", "sync.Pool.Get":
					k = 2
				}
				if rc.rel[c] != nil && k == 0 {
					k = 1
				}
				if recvIs(c, "*ValueCache") && c.Signature.Results().Len() == 0 {
					k = 2
				}
			}
			switch x := in.(type) {
			case *ssa.Slice:
				if st, ok := x.Type().Underlying().(*types.Slice); ok && x.High != nil {
					et := st.Elem()
					if pt, ok := et.Underlying().(*types.Pointer); ok {
						et = pt.Elem()
					}
					if bo, ok := x.High.(*ssa.BinOp); structOf(et) != nil && ok && bo.Op == token.ADD {
						k = 2
					}
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if _, ok := fa.X.(*ssa.Alloc); ok {
						break
					}
					switch tname(deref(fa.X.Type())) + "." + structOf(deref(fa.X.Type())).Field(fa.Field).Name() {
					case "DxValue.ownercache", "ValueCache.Value", "ValueCache.fisroot":
						k = 2
					}
				}
			}
		}
	}
	return k
}

// fn analyses one function; via: a function to be inlined into it, of which only the Puts are judged.
func (rc *recCheck) fn(f, via *ssa.Function) (missing map[string]bool) {
	p, r := rc.p, rc.r
	own := rc.own(f)
	if own == 0 && via == nil {
		return
	}
	mid := inlineUpTo(400)
	ir := p.buildIR(f, func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if g == via {
			return true
		}
		if rc.rel[g] != nil && via == nil || p.inCycle[g] {
			return false
		}
		if own < 2 && via == nil || maker(g) >= 0 || g.Signature.Results().Len() > 0 && rc.own(g) == 2 {
			return false
		}
		if via != nil && len(stack) > 0 && stack[len(stack)-1] != via {
			return rc.own(g) == 1 || resetter(g) || rc.own(g) == 0 && g.Signature.Results().Len() == 1 && structOf(deref(g.Signature.Results().At(0).Type())) != nil && len(g.Blocks) <= 4
		}
		return mid(ir, g, depth, stack)
	})
	p.alias()
	ir.promote()
	relevant := false
	var exts []*Node
	isExt := map[*Node]bool{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if nm, _ := poolCall(n); nm != "" {
				relevant = true
			}
			if (n.Op == OCall || n.Op == ODefer) && n.Callee != nil && rc.rel[n.Callee] != nil {
				relevant = true
			}
			if n.Op == OSlice && n.Hi && n.Typ != nil {
				if s, ok := n.Typ.Underlying().(*types.Slice); ok {
					et := s.Elem()
					if pt, ok := et.Underlying().(*types.Pointer); ok {
						et = pt.Elem()
					}
					if structOf(et) != nil {
						exts = append(exts, n)
						relevant = true
					}
				}
			}
			if n.Op == OStore {
				switch ir.loc(n.Args[0]).Class {
				case "DxValue.ownercache", "ValueCache.Value", "ValueCache.fisroot":
					relevant = true
				}
			}
		}
	}
	if recvIs(f, "*DxValue") && resetter(f) {
		relevant = true
	}
	if !relevant {
		return
	}
	r.Functions[fnName(f)] = true
	if via == nil {
		r.count("functions")
	}
	// the content of the slices of what is put into a pool
	pre := map[string]*Node{}
	sliceAt := func(x *Node, class string, at *Node) *Node {
		x = rawNode(x)
		k := fmt.Sprint(x.ID, "|", class, "|", at.ID)
		if v := pre[k]; v != nil {
			return v
		}
		s := structOf(deref(x.Typ))
		if s == nil {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if tname(deref(x.Typ))+"."+s.Field(i).Name() != class {
				continue
			}
			if _, ok := s.Field(i).Type().Underlying().(*types.Slice); !ok {
				return nil
			}
			v := ir.value(Loc{Root: x, Path: fmt.Sprintf(".%d", i), Class: class, Typ: s.Field(i).Type(), Exact: true}, ir.verAt(class, at.Blk, at.Idx)).canon()
			pre[k] = v
			return v
		}
		return nil
	}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if nm, _ := poolCall(n); nm == "Put" && len(n.Args) == 2 {
				x := rawNode(n.Args[1])
				for x.Op == OMakeIface {
					x = rawNode(x.Args[0])
				}
				for _, c := range leaves(deref(x.Typ)) {
					sliceAt(x, c, n)
				}
			}
		}
	}
	fl := &Flow{IR: ir, Max: 400, Init: newRecState(), Limit: 200000}
	fl.prepare()
	for _, v := range pre {
		fl.Keep(v)
	}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if constGlobal(n.canon()) {
				fl.Keep(n.canon())
			}
			if n.Op == OSlice || n.Op == OTypeAssert || n.Op == OIndexAddr || n.Op == OCall && n.Typ != nil && isPtrLike(n.Typ) {
				fl.Keep(n, n.canon())
			}
			if n.Op == OLoad && n.Typ != nil && isPtrLike(n.Typ) {
				fl.Keep(n, n.canon())
			}
		}
	}
	for _, q := range ir.Params {
		fl.Keep(q.canon())
	}
	bad := map[string]bool{}
	fail := func(rule string, n *Node, msg string, a ...interface{}) {
		if via != nil {
			return
		}
		s := fmt.Sprintf(msg, a...)
		if bad[s] || fl.unsure() {
			return
		}
		bad[s] = true
		pos := f.Pos()
		fr := fnName(f)
		if n != nil && n.Pos.IsValid() {
			pos = n.Pos
			if n.Frame != nil {
				fr = n.Frame.chain(p)
			}
		}
		k := rule + p.pos(pos) + s
		if rc.seen[k] {
			return
		}
		rc.seen[k] = true
		r.bad(p, rule, pos, fr, "%s", s)
	}
	// lengthened: by how much the slice made is longer than what it is made from; 0: not known to be
	lengthened := func(st *FState, n *Node) bool {
		x := st.res(n.Args[0])
		hi := n.Args[1]
		if n.Lo {
			hi = n.Args[2]
		}
		b, k := linOf(st, hi)
		if b.Op == OBuiltin && b.Name == "len" && k > 0 {
			y := b.Args[0].canon()
			return y == n.Args[0].canon() || st.res(y) == x
		}
		return false
	}
	// extOf: the lengthened slice an element belongs to, when it is the element that came to light
	extOf := func(st *FState, l Loc) *Node {
		if l.Root == nil || !strings.HasPrefix(l.Path, "[") {
			return nil
		}
		s, i, _ := ir.elemOfLoc(l)
		if s == nil || i == nil {
			return nil
		}
		x := st.res(s)
		if !st.C.(*recState).ext[x] {
			return nil
		}
		b, k := linOf(st, i)
		if b.Op != OBuiltin || b.Name != "len" {
			return nil
		}
		y := st.res(b.Args[0])
		switch {
		case y == x && k == -1:
			return x
		case y == st.res(x.Args[0]) && k == 0:
			return x
		}
		return nil
	}
	object := func(st *FState, l Loc) (*Node, string) { // the object whose field a location is
		if !strings.HasPrefix(l.Path, "[") && l.Root != nil {
			if x := st.res(l.Root); x.Op == OIndexAddr {
				if e := extOf(st, ir.loc(x)); e != nil {
					return e, strings.TrimPrefix(l.Path, ".")
				}
			}
		}
		if e := extOf(st, l); e != nil {
			return e, l.Path[strings.IndexByte(l.Path, ']')+1:]
		}
		if strings.HasPrefix(l.Path, "[") {
			return nil, l.Path
		}
		return st.res(l.Root), l.Path
	}
	var fresh func(st *FState, v *Node, class string, d int) bool
	fresh = func(st *FState, v *Node, class string, d int) bool {
		v = st.res(v)
		if d > 8 {
			return true
		}
		switch v.Op {
		case OLoad:
			return ir.loc(v.Args[0]).Class != class
		case OInit, OMemPhi, OHavoc:
			return v.MemLoc == nil || v.MemLoc.Class != class
		case OSlice:
			if v.Hi && !v.Lo {
				if k, ok := constIntOf(st.res(v.Args[1])); ok && k == 0 {
					return true
				}
			}
			return fresh(st, v.Args[0], class, d+1)
		case OBuiltin:
			if v.Name == "append" {
				return fresh(st, v.Args[0], class, d+1)
			}
		case OPhi:
			for _, a := range v.Args {
				if a.canon() != v && !fresh(st, a, class, d+1) {
					return false
				}
			}
		}
		return true
	}
	mark := func(st *FState, o *Node, class string) { st.C.(*recState).set[fmt.Sprint(o.ID, "|", class)] = true }
	has2 := func(st *FState, o *Node, class string) bool {
		return st.C.(*recState).set[fmt.Sprint(o.ID, "|", class)]
	}
	// has3: written, or found empty where it matters
	var lens []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OBuiltin && n.Name == "len" && n.canon() == n {
				lens = append(lens, n)
				fl.Keep(n)
			}
		}
	}
	has3 := func(st *FState, x *Node, class string, at *Node) bool {
		if has2(st, x, class) {
			return true
		}
		if v := sliceAt(x, class, at); v != nil {
			v = st.res(v)
			for _, l := range lens {
				if st.res(l.Args[0]) == v && st.val(l).hi <= 0 {
					return true
				}
			}
		}
		return false
	}
	var asked *Node // the type asked for
	if i := maker(f); i >= 0 {
		asked = ir.Params[i].canon()
	} else if resetter(f) {
		asked = ir.Params[1].canon()
	}
	relArgs := func(n *Node) []*Node {
		if nm, _ := poolCall(n); nm == "Put" && len(n.Args) == 2 {
			return []*Node{n.Args[1]}
		}
		var out []*Node
		if n.Callee != nil {
			for i := range rc.rel[n.Callee] {
				if i < len(n.Args) {
					out = append(out, n.Args[i])
				}
			}
		}
		return out
	}
	unwrap := func(st *FState, n *Node) *Node {
		n = st.res(n)
		for n.Op == OMakeIface || n.Op == OChangeIface {
			n = st.res(n.Args[0])
		}
		return n
	}
	cacheOf := func(n *Node) *Node { // whose cache a node is
		n = rawNode(n)
		var l Loc
		switch {
		case n.Op == OLoad:
			l = ir.loc(n.Args[0])
		case n.MemLoc != nil:
			l = *n.MemLoc
		default:
			return nil
		}
		if l.Class == "DxValue.ownercache" {
			return l.Root.canon()
		}
		return nil
	}
	poolKey := func(st *FState, pool *Node, o *Node) string { return pool.Name + " of " + tname(o.Typ) }
	missing = map[string]bool{}
	judged := false
	note := func(m map[string]map[string]string, k string, t types.Type, fld string, ok bool) {
		if m[k] == nil {
			m[k] = map[string]string{}
		}
		if !ok {
			m[k][fld] = fnName(f)
			if rc.at == nil {
				rc.at = map[string]*ssa.Function{}
			}
			rc.at[fnName(f)] = f
		}
	}
	use := func(st *FState, at, n *Node, what string) {
		rs := st.C.(*recState)
		x := unwrap(st, n)
		if w := rs.freed[x]; w != nil && st.nilState(x) != 1 && !st.immutable(x) {
			fail("use-after-release", at, "what was given back %s is %s afterwards: it may be another's by then", "at "+p.pos(w.Pos), what)
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		rs := st.C.(*recState)
		switch n.Op {
		case OSlice:
			for _, e := range exts {
				if e == n && lengthened(st, n) && !newSlice(st.res(n.Args[0])) {
					isExt[n] = true
					rs.ext[st.res(n)] = true
					for k := range rs.set {
						if strings.HasPrefix(k, fmt.Sprint(st.res(n).ID, "|")) {
							delete(rs.set, k)
						}
					}
					if via == nil {
						r.count("slots_reused")
						if os.Getenv("DXDEBUG") != "" && !bad["x"+fnName(f)] {
							bad["x"+fnName(f)] = true
							fmt.Println("reused", fnName(f), p.pos(n.Pos))
						}
					}
				}
			}
		case OLoad:
			l := ir.loc(n.Args[0])
			if l.Root.Op != OAlloc && l.Path != "" {
				use(st, n, l.Root, "read")
			}
		case OStore:
			l := ir.loc(n.Args[0])
			if l.Root.Op != OAlloc && l.Path != "" {
				use(st, n, l.Root, "written")
			}
			if isPtrLike(n.Args[1].Typ) {
				use(st, n, n.Args[1], "stored")
			}
			o, path := object(st, l)
			whole := l.Typ != nil && structOf(l.Typ) != nil
			switch {
			case o == nil:
			case whole:
				for _, c := range leaves(l.Typ) {
					mark(st, o, c)
				}
			case path == "":
				mark(st, o, "*")
			default:
				if strings.Contains(path, "[") || strings.Contains(path, "#") {
					mark(st, o, l.Class)
				} else if fresh(st, n.Args[1], l.Class, 0) {
					mark(st, o, l.Class)
					if l.Class == "DxValue.DataType" && asked != nil {
						if v := st.res(n.Args[1]); v != asked && (o == ir.Params[0].canon() && resetter(f) || rs.ext[o]) {
							a, ok1 := st.val(v).exact()
							b, ok2 := st.val(asked).exact()
							if !ok1 || !ok2 || a != b {
								fail("re-initialised", n, "the type the recycled value gets is not the one asked for")
							}
						}
					}
				} else {
					delete(rs.set, fmt.Sprint(o.ID, "|", l.Class))
				}
			}
			switch l.Class {
			case "ValueCache.Value":
				v := st.res(n.Args[1])
				zero := v.Op == OConst && v.IsNil || v.Op == OMakeSlice
				if v.Op == OSlice && v.Hi && !v.Lo {
					if k, ok := constIntOf(st.res(v.Args[1])); ok && k == 0 && st.res(v.Args[0]).Op != OAlloc {
						zero = true
					}
				}
				if zero {
					rs.cut[st.res(l.Root)] = n
				}
			case "DxValue.ownercache":
				v := st.res(n.Args[1])
				if v.Op != OConst && v.Op != OAlloc && st.nilState(v) != 1 {
					rs.owned[v] = n
				}
			case "ValueCache.fisroot":
				if v, ok := st.decide(n.Args[1], 0); ok && !v {
					for c := range rs.owned {
						if c == st.res(l.Root) {
							delete(rs.owned, c)
						}
					}
					mark(st, st.res(l.Root), "unrooted")
				} else {
					delete(rs.set, fmt.Sprint(st.res(l.Root).ID, "|unrooted"))
				}
			}
		case OCall, ODefer:
			rel := relArgs(n)
			isRel := map[*Node]bool{}
			for _, a := range rel {
				isRel[a] = true
			}
			for _, a := range n.Args {
				if !isRel[a] && a.Typ != nil && (isPtrLike(a.Typ)) {
					use(st, n, a, "used")
				}
			}
			for _, a := range rel {
				x := unwrap(st, a)
				if st.nilState(x) == 1 || x.Op == OConst || st.immutable(x) {
					continue
				}
				if via == nil {
					r.count("releases")
				}
				if w := rs.freed[x]; w != nil {
					fail("double-release", n, "what was given back at %s is given back again", p.pos(w.Pos))
				}
				if w := rs.def[x]; w != nil {
					fail("double-release", n, "what a deferred call gives back (%s) is given back here as well", p.pos(w.Pos))
				}
				if n.Op == ODefer {
					rs.def[x] = n
					continue
				}
				rs.freed[x] = n
				delete(rs.cut, x)
				if o := cacheOf(x); o != nil {
					rs.freed[st.res(o)] = n
					rs.from[st.res(o)] = n
				}
			}
			if nm, pool := poolCall(n); nm == "Put" && n.Op == OCall && len(n.Args) == 2 {
				x := unwrap(st, n.Args[1])
				pt := deref(x.Typ)
				if structOf(pt) != nil && st.nilState(x) != 1 {
					judged = true
					for _, c := range leaves(pt) {
						ok := has3(st, x, c, n) || has2(st, x, "*")
						if !ok {
							missing[c] = true
						}
					}
					if via == nil {
						k := poolKey(st, pool, x)
						rc.types[k] = pt
						if rc.put[k] == nil {
							rc.put[k] = map[string]string{}
						}
						// the callers may have seen to it
						ms := missing
						if x.Op == OParam && !isExported(f) {
							if up := rc.upward(f); up != nil {
								ms = map[string]bool{}
								for c := range missing {
									if up[c] {
										ms[c] = true
									}
								}
							}
						}
						for c := range ms {
							note(rc.put, k, pt, c, false)
						}
					}
				}
			}
			// others may initialise what they are given
			if n.Op == OCall && len(rel) == 0 && n.Callee != nil && p.internal(n.Callee) {
				for _, a := range n.Args {
					if a.Typ == nil {
						continue
					}
					y := st.res(a)
					if y.Op == OIndexAddr {
						if e := extOf(st, ir.loc(y)); e != nil {
							for _, c := range leaves(deref(y.Typ)) {
								if !(resetter(n.Callee) && strings.HasSuffix(c, ".ownercache")) {
									mark(st, e, c)
								}
							}
						}
					}
				}
			}
		case OReturn:
			for _, a := range n.Args {
				if a.Typ != nil && isPtrLike(a.Typ) {
					use(st, n, a, "returned")
				}
			}
			for e := range rs.ext {
				et := e.Typ.Underlying().(*types.Slice).Elem()
				if pt, ok := et.Underlying().(*types.Pointer); ok {
					if !has2(st, e, "*") {
						fail("re-initialised", e, "the element that lengthening the slice brings to light may keep what was there (%s)", tname(pt))
					}
					continue
				}
				var miss []string
				skip := false
				for _, c := range leaves(et) {
					if !has2(st, e, c) {
						miss = append(miss, c)
					}
				}
				// the recycled value is none of the constants
				for k, b := range st.fact {
					if b && k.b != nil && (constGlobal(k.a) && st.res(k.b).Op == OIndexAddr || constGlobal(k.b) && st.res(k.a).Op == OIndexAddr) {
						skip = true
					}
				}
				if len(miss) > 0 && !skip && os.Getenv("DXDEBUG") != "" {
					fmt.Println("slot", fnName(f), via, p.pos(n.Pos), e.ID, miss, st.C.Key())
				}
				if len(miss) > 0 && !skip && via != nil {
					rc.extMiss[via] = true
				}
				if len(miss) > 0 && !skip && !rc.seenTo(f, via) {
					fail("re-initialised", e, "a slot of recycled memory may be given out with the previous %s", strings.Join(miss, ", "))
				}
			}
			if resetter(f) && via == nil {
				v := ir.Params[0].canon()
				if !st.immutable(v) {
					var miss []string
					for _, c := range leaves(deref(v.Typ)) {
						if !has3(st, v, c, n) && !strings.HasSuffix(c, ".ownercache") {
							miss = append(miss, c)
						}
					}
					if len(miss) > 0 {
						fail("re-initialised", n, "a value that is reset may keep its %s", strings.Join(miss, ", "))
					}
				}
			}
			for o, w := range rs.from {
				if !has2(st, o, "DxValue.ownercache") {
					fail("double-release", w, "the cache is given back, but the value it was taken from still has it: it may be given back again")
				}
			}
			for c, w := range rs.cut {
				if c.Op == OParam && f.Signature.Recv() != nil && c == ir.Params[0].canon() || st.nilState(c) == 1 {
					continue
				}
				if cacheOf(c) != nil {
					fail("live-slots", w, "all values of the cache are given up here while the value that owns the cache stays in use: it may be given out again")
				}
			}
			for c, w := range rs.owned {
				if c.Op == OParam && !has2(st, c, "unrooted") {
					fail("one-owner", w, "the cache is entrusted to a value, but stays ready to be entrusted to the next one as well")
				}
			}
			// what a get hands out
			for _, b := range ir.Blocks {
				for _, g := range b.Nodes {
					if nm, pool := poolCall(g); nm == "Get" {
						for _, x := range rc.gotten(ir, g) {
							x = st.res(x)
							pt := deref(x.Typ)
							if structOf(pt) == nil || !returns(st, n, x) {
								continue
							}
							k := poolKey(st, pool, x)
							if rc.get[k] == nil {
								rc.get[k] = map[string]string{}
							}
							for _, c := range leaves(pt) {
								if !has3(st, x, c, n) && !has2(st, x, "*") {
									note(rc.get, k, pt, c, false)
								}
							}
							if via == nil {
								r.count("gets")
							}
						}
					}
				}
			}
		}
		return true
	}
	fl.run()
	if fl.Too {
		r.Counts["too_large"]++
	}
	if os.Getenv("DXDEBUG") != "" {
		fmt.Println(fnName(f), "visits", fl.Visits, "missing", missing)
	}
	if !judged {
		return nil
	}
	return missing
}

// gotten: the pointers that a Get's result is asserted to be.
func (rc *recCheck) gotten(ir *IR, g *Node) []*Node {
	var out []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OTypeAssert && rawNode(n.Args[0]) == g {
				if n.Typ != nil && deref(n.Typ) != nil {
					out = append(out, n)
				}
			}
			if n.Op == OExtract && n.Args[0].canon().Op == OTypeAssert && rawNode(n.Args[0].canon().Args[0]) == g && n.Typ != nil && deref(n.Typ) != nil {
				out = append(out, n)
			}
		}
	}
	return out
}

func returns(st *FState, ret, x *Node) bool {
	for _, a := range ret.Args {
		if st.res(a) == x {
			return true
		}
	}
	return false
}

// seenTo: the slot an unexported function brings to light is initialised by all its callers.
func (rc *recCheck) seenTo(f, via *ssa.Function) bool {
	if via != nil || isExported(f) || len(rc.p.callers[f]) == 0 {
		return false
	}
	if rc.extMiss == nil {
		rc.extMiss = map[*ssa.Function]bool{}
	}
	rc.upward(f)
	return !rc.extMiss[f]
}

// upward: what none, or not all, of the callers of a function that puts its argument into a pool have written before.
func (rc *recCheck) upward(f *ssa.Function) map[string]bool {
	if m, ok := rc.up[f]; ok {
		return m
	}
	m := rc.upward1(f)
	if rc.up == nil {
		rc.up = map[*ssa.Function]map[string]bool{}
	}
	rc.up[f] = m
	return m
}

func (rc *recCheck) upward1(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	any, none := false, false
	done := map[*ssa.Function]bool{f: true}
	for _, cl := range rc.p.callers[f] {
		g := cl.Parent()
		if done[g] {
			continue
		}
		done[g] = true
		m := rc.fn(g, f)
		if m == nil {
			none = true
		}
		any = true
		for c := range m {
			out[c] = true
		}
	}
	if !any || none {
		return nil
	}
	return out
}

// newSlice: what make has just made.
func newSlice(n *Node) bool {
	return n.Op == OMakeSlice || n.Op == OSlice && rawNode(n.Args[0]).Op == OAlloc
}
