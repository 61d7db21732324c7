package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: member keys are always seen unescaped. Typestate on every object: its stored keys are either still as they
// stood in the JSON text (flag false) or literal (flag true).

func init() {
	register("C18", (*Check).keysUnescaped)
}

const kuClass = "VObject.keysUnescaped"

type keyState struct {
	ku     map[*Node]string // object -> T (literal), F (raw), s (a slot or object just made), i<id> (as on entry), m<id> (as on entry or literal), ? (unknown)
	load   map[*Node]*Node  // object -> last read of its flag
	unesc  map[*Node]*Node  // object -> where its keys were unescaped
	raw    map[*Node]*Node  // object -> where its raw keys were compared with a name
	copied map[[2]*Node]string
	copyAt map[[2]*Node]*Node
	chg    map[*Node]bool  // objects whose mark was changed here
	low    map[*Node]*Node // object -> where a mark that is not known to be "literal" was put on it
	empty  map[*Node]bool  // objects that lost all their members here
	match  bool
	pend   map[*Node]string // key read -> "" (as its object is), or what its object was before its mark changed
}

func newKeyState() *keyState {
	return &keyState{pend: map[*Node]string{}, ku: map[*Node]string{}, load: map[*Node]*Node{}, unesc: map[*Node]*Node{}, raw: map[*Node]*Node{}, copied: map[[2]*Node]string{}, copyAt: map[[2]*Node]*Node{}, chg: map[*Node]bool{}, low: map[*Node]*Node{}, empty: map[*Node]bool{}}
}

func (s *keyState) Key() string {
	var ks []string
	for n, r := range s.ku {
		ks = append(ks, fmt.Sprintf("%d:%s", n.ID, r))
	}
	for n, l := range s.load {
		ks = append(ks, fmt.Sprintf("l%d:%d", n.ID, l.ID))
	}
	for n := range s.unesc {
		ks = append(ks, fmt.Sprintf("u%d", n.ID))
	}
	for n := range s.raw {
		ks = append(ks, fmt.Sprintf("r%d", n.ID))
	}
	for n := range s.chg {
		ks = append(ks, fmt.Sprintf("x%d", n.ID))
	}
	for n := range s.low {
		ks = append(ks, fmt.Sprintf("w%d", n.ID))
	}
	for n := range s.empty {
		ks = append(ks, fmt.Sprintf("e%d", n.ID))
	}
	for k, v := range s.pend {
		ks = append(ks, fmt.Sprintf("p%d:%s", k.ID, v))
	}
	for k, v := range s.copied {
		ks = append(ks, fmt.Sprintf("c%d<%d:%s", k[0].ID, k[1].ID, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",") + fmt.Sprint(s.match)
}

func (s *keyState) Clone() CState {
	n := newKeyState()
	for k, v := range s.ku {
		n.ku[k] = v
	}
	for k, v := range s.load {
		n.load[k] = v
	}
	for k, v := range s.unesc {
		n.unesc[k] = v
	}
	for k, v := range s.raw {
		n.raw[k] = v
	}
	for k, v := range s.copied {
		n.copied[k] = v
		n.copyAt[k] = s.copyAt[k]
	}
	for k := range s.chg {
		n.chg[k] = true
	}
	for k, v := range s.low {
		n.low[k] = v
	}
	for k := range s.empty {
		n.empty[k] = true
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	n.match = s.match
	return n
}

func (s *keyState) Prune(keep func(*Node) bool) {
	held := map[*Node]bool{}
	for k := range s.copied {
		held[k[0]], held[k[1]] = true, true
	}
	for k := range s.unesc {
		if s.ku[k] == "T" {
			delete(s.unesc, k)
			continue
		}
		held[k] = true
	}
	for k := range s.raw {
		if s.ku[k] == "T" {
			delete(s.raw, k)
			continue
		}
		held[k] = true
	}
	for k := range s.ku {
		if !held[k] && k.Op != OParam && !keep(k) {
			delete(s.ku, k)
		}
	}
	for k, v := range s.load {
		if !keep(v) {
			delete(s.load, k)
		}
	}
	for k := range s.chg {
		if k.Op != OParam {
			delete(s.chg, k)
		}
	}
	for k := range s.pend {
		if !keep(k.canon()) {
			delete(s.pend, k)
		}
	}
	for k := range s.empty {
		if !keep(k) && k.Op != OParam && s.low[k] == nil {
			delete(s.empty, k)
		}
		if s.low[k] != nil {
			delete(s.low, k)
		}
	}
}

func (s *keyState) Reenter(st *FState, gone func(*Node) bool, phis map[*Node]*Node) {
	for k := range s.ku {
		if gone(k) {
			delete(s.ku, k)
		}
	}
	for k := range s.pend {
		if gone(k) {
			delete(s.pend, k)
		}
	}
	for k, v := range s.load {
		if gone(k) || gone(v) {
			delete(s.load, k)
		}
	}
	for k := range s.unesc {
		if gone(k) {
			delete(s.unesc, k)
		}
	}
	for k := range s.raw {
		if gone(k) {
			delete(s.raw, k)
		}
	}
	for k := range s.low {
		if gone(k) {
			delete(s.low, k)
		}
	}
	for k := range s.empty {
		if gone(k) {
			delete(s.empty, k)
		}
	}
	for k := range s.copied {
		if gone(k[0]) || gone(k[1]) {
			delete(s.copied, k)
			delete(s.copyAt, k)
		}
	}
}

// rawNode follows replacements, but not those of loads.
func rawNode(a *Node) *Node {
	for a.repl != nil && a.Op != OLoad {
		a = a.repl
	}
	return a
}

// rawVal is canon, except that every load stays a value of its own.
func rawVal(a *Node) *Node { return rawNode(a) }

// objPtr: the object (a *DxValue, or a *VObject of its own) whose VObject a points to.
func objPtr(a *Node) *Node {
	a = a.canon()
	for a.Op == OChangeType {
		a = a.Args[0].canon()
	}
	if a.Op == OFieldAddr && a.Typ != nil && tname(a.Typ) == "*VObject" {
		return a.Args[0].canon()
	}
	return a
}

func fieldNameOf(n *Node) string {
	t := n.Args[0].Typ
	if t == nil {
		return ""
	}
	s := structOf(deref(t))
	if s == nil {
		s = structOf(t)
	}
	if s == nil || n.Field >= s.NumFields() {
		return ""
	}
	return tname(deref(t)) + "." + s.Field(n.Field).Name()
}

// keyOwner: the object whose key the address (of a K field, or of a whole member) denotes.
func keyOwner(a *Node) *Node {
	for i := 0; i < 24; i++ {
		a = rawNode(a)
		switch a.Op {
		case OFieldAddr:
			if fieldNameOf(a) == "strkv.K" {
				a = a.Args[0]
				continue
			}
			return nil
		case OIndexAddr, OSlice:
			a = a.Args[0]
		case OLoad:
			x := rawNode(a.Args[0])
			if x.Op == OFieldAddr && fieldNameOf(x) == "VObject.strkvs" {
				return objPtr(x.Args[0])
			}
			if a.repl != nil {
				a = a.repl
				continue
			}
			return nil
		case OPhi, OInit, OHavoc, OMemPhi:
			if a.MemLoc != nil && a.MemLoc.Class == "VObject.strkvs" {
				r := a.MemLoc.Root.canon()
				return objPtr(r)
			}
			return nil
		case OBuiltin:
			if a.Name == "append" {
				a = a.Args[0]
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

type keyChk struct {
	p       *Program
	r       *Result
	req     map[*ssa.Function]map[int]string // parameter's keys must be T or F
	eff     map[*ssa.Function]map[int]string
	ret     map[*ssa.Function]string
	touches map[*ssa.Function]bool
	jsonIn  map[*ssa.Function]bool
	otherIn map[*ssa.Function]bool
	changed bool
	results map[*unit]func()
}

// fixpoint runs f on every unit, and again on the units that call one for which f reported a change.
func fixpoint(us []*unit, rounds int, f func(u *unit) bool) {
	calls := map[*unit]map[*ssa.Function]bool{}
	for _, u := range us {
		calls[u] = map[*ssa.Function]bool{u.Fn: true}
		for _, b := range u.IR.Blocks {
			for _, n := range b.Nodes {
				if n.Callee != nil {
					calls[u][n.Callee] = true
				}
			}
		}
	}
	todo := map[*unit]bool{}
	for _, u := range us {
		todo[u] = true
	}
	for round := 0; round < rounds && len(todo) > 0; round++ {
		next := map[*unit]bool{}
		for _, u := range us {
			if !todo[u] {
				continue
			}
			delete(next, u)
			if f(u) {
				for _, w := range us {
					if calls[w][u.Fn] {
						next[w] = true
					}
				}
			}
		}
		todo = next
	}
}

func joinKU(a, b string) string {
	if a == b || b == "" {
		return a
	}
	if a == "" {
		return b
	}
	x, y := a, b
	if x > y {
		x, y = y, x
	}
	switch {
	case x == "T" && (y == "i" || y == "m"), x == "i" && y == "m":
		return "m"
	case x == "F" && y == "s":
		return "s"
	}
	return "?"
}

func (kc *keyChk) unit(u *unit) {
	ir, p := u.IR, kc.p
	isObj := func(n *Node) bool { t := tname(n.Typ); return t == "*DxValue" || t == "*VObject" }
	pidx := map[*Node]int{}
	for i, q := range ir.Params {
		pidx[q] = i
	}
	// what is done with keys read
	uses := map[*Node][]*Node{}
	var all []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			all = append(all, n)
			if n.canon() != n && n.Op != OLoad {
				continue
			}
			for _, a := range n.Args {
				c := rawVal(a)
				uses[c] = append(uses[c], n)
			}
		}
	}
	// members copied to a variable as a whole
	memberOf := map[*Node]*Node{}
	for _, n := range all {
		if n.Op != OStore {
			continue
		}
		if a := rawNode(n.Args[0]); a.Op == OAlloc {
			if v := n.Args[1]; v.Typ != nil && tname(v.Typ) == "strkv" {
				for v.repl != nil && v.Op != OLoad {
					v = v.repl
				}
				var o *Node
				if v.Op == OLoad {
					o = keyOwner(v.Args[0])
				}
				if old, dup := memberOf[a]; dup && old != o {
					o = nil
				}
				memberOf[a] = o
			}
		}
	}
	ownerOf := func(a *Node) *Node {
		if b := rawNode(a.Args[0]); b.Op == OAlloc {
			return memberOf[b]
		}
		return keyOwner(a)
	}
	owner := map[*Node]*Node{} // read or written address node -> object
	kload := map[*Node]*Node{} // value of a key -> object
	byCanon := map[*Node]*Node{}
	interesting := false
	json := false
	for _, n := range all {
		switch n.Op {
		case OLoad, OStore:
			a := rawNode(n.Args[0])
			if a.Op == OFieldAddr {
				switch fieldNameOf(a) {
				case kuClass:
					owner[n] = objPtr(a.Args[0])
					interesting = true
				case "VObject.strkvs":
					if n.Op == OStore {
						owner[n] = objPtr(a.Args[0])
					}
				case "strkv.K":
					if o := ownerOf(a); o != nil && (n.Op == OLoad || rawNode(a.Args[0]).Op != OAlloc) {
						owner[n] = o
						interesting = true
						if n.Op == OLoad {
							kload[n] = o
							byCanon[n.canon()] = o
						}
					}
				}
			}
		case OField:
			// a member copied out of the slice as a whole
			if fieldNameOf(n) == "strkv.K" {
				l := n.Args[0]
				for l.repl != nil && l.Op != OLoad {
					l = l.repl
				}
				if l.Op == OLoad {
					if o := keyOwner(l.Args[0]); o != nil {
						owner[n] = o
						interesting = true
						kload[n] = o
						byCanon[n.canon()] = o
					}
				}
			}
		case OCall, ODefer:
			if n.Callee != nil && (kc.touches[n.Callee] || kc.req[n.Callee] != nil) {
				interesting = true
			}
			if n.Callee != nil && !p.internal(n.Callee) && strings.HasPrefix(n.Callee.Name(), "EscapeJson") {
				json = true
			}
		}
	}
	if !interesting {
		return
	}
	// a key read back from a local copy
	for _, n := range all {
		if n.Op == OLoad && owner[n] == nil && isString(n.Typ) {
			if o := byCanon[n.canon()]; o != nil {
				owner[n], kload[n] = o, o
			}
		}
	}
	styleOf := func() *Node {
		for _, q := range ir.Params {
			if strings.Contains(tname(q.Typ), "EscapeStyle") {
				return q
			}
		}
		return nil
	}()
	noEsc, haveNoEsc := p.intConst("JSE_NoEscape")
	fl := &Flow{IR: ir, Max: 32, Init: newKeyState()}
	fl.prepare()
	for n := range owner {
		if n.Op == OLoad && isBoolNode(n) {
			fl.Keep(n.canon())
		}
	}
	fl.Keep(ir.Params...)
	fl.Keep(fl.consts...)
	// tests whether a name contains a backslash
	slash := map[*Node][]*Node{}
	for _, n := range all {
		if n.Op == OCall && n.Callee != nil && n.Callee.Pkg != nil && (n.Callee.Pkg.Pkg.Path() == "strings" || n.Callee.Pkg.Pkg.Path() == "bytes") && len(n.Args) == 2 {
			switch n.Callee.Name() {
			case "IndexByte", "Index", "IndexRune", "IndexAny", "Contains", "ContainsRune", "ContainsAny", "LastIndexByte", "LastIndex", "Count":
				c := n.Args[1].canon()
				s := c.String()
				if c.Op == OConst && c.Const != nil && (s == "92" || strings.Contains(c.Const.ExactString(), `\\`) || c.Const.ExactString() == "92") {
					x := n.Args[0].canon()
					slash[x] = append(slash[x], n)
					fl.Keep(n)
				}
			}
		}
	}
	if styleOf != nil {
		fl.Keep(styleOf)
	}
	slashCall := map[*Node][]*Node{}
	for x, l := range slash {
		for _, c := range l {
			slashCall[c.canon()] = append(slashCall[c.canon()], x)
		}
	}
	ints := comparedInts(all)
	tracked := map[*Node]bool{}
	fl.Track = func(n *Node) bool {
		if v, ok := tracked[n]; ok {
			return v
		}
		t := n.Typ != nil && (isObj(n) || isBoolNode(n) || n == styleOf || len(slashCall[n]) > 0 || ints[n])
		tracked[n] = t
		return t
	}
	noSlash := func(st *FState, name *Node) bool {
		name = name.canon()
		if name.Op == OConst && name.Const != nil {
			return !strings.Contains(name.Const.ExactString(), `\`)
		}
		for _, c := range append(slash[name], slash[st.res(name)]...) {
			if isBoolNode(c) {
				if v, ok := st.decide(c, 0); ok && !v {
					return true
				}
			} else if v := st.val(c); v.hi < 0 || c.Callee.Name() == "Count" && v.hi <= 0 {
				return true
			}
		}
		return false
	}
	get := func(st *FState, o *Node) (string, *Node) {
		ks := st.C.(*keyState)
		o = objPtr(st.res(o))
		if v, ok := ks.ku[o]; ok {
			return v, o
		}
		switch o.Op {
		case OAlloc:
			return "F", o
		case OIndexAddr:
			return "s", o
		case OCall, OExtract:
			c := o
			if o.Op == OExtract {
				c = o.Args[0].canon()
			}
			if c.Callee != nil && p.internal(c.Callee) {
				if r := kc.ret[c.Callee]; r != "" {
					return r, o
				}
				return "s", o
			}
		}
		return fmt.Sprintf("i%d", o.ID), o
	}
	bad := map[*Node]string{}
	okN := map[*Node]bool{}
	fail := func(n *Node, format string, args ...any) {
		if _, dup := bad[n]; !dup {
			bad[n] = fmt.Sprintf(format, args...)
		}
	}
	// need: the keys of o must be literal (T) or raw (F) here
	need := func(st *FState, n, o *Node, want, what string) {
		v, x := get(st, o)
		okN[n] = true
		if v == want || want == "F" && v == "s" {
			return
		}
		if i, isP := pidx[x]; isP && (v == fmt.Sprintf("i%d", x.ID) || want == "T" && v == fmt.Sprintf("m%d", x.ID)) && !isExported(u.Fn) && !dynCallable(p, u.Fn) {
			if kc.req[u.Fn] == nil {
				kc.req[u.Fn] = map[int]string{}
			}
			if old := kc.req[u.Fn][i]; old == "" {
				kc.req[u.Fn][i] = want
				kc.changed = true
			}
			return
		}
		state := map[string]string{"T": "are already literal", "F": "are still escaped", "s": "may still be escaped"}[v]
		if state == "" {
			state = "may still be escaped"
			if want == "F" {
				state = "may already be literal"
			}
		}
		fail(n, "%s an object whose keys %s here", what, state)
	}
	passThrough := func(n *Node) bool {
		switch n.Op {
		case OConvert, OChangeType, OPhi, OMakeIface:
			return true
		case OCall:
			return n.Callee != nil && !p.internal(n.Callee) && (n.Callee.Name() == "FastString2Byte" || n.Callee.Name() == "FastByte2String")
		}
		return false
	}
	isKey := func(n *Node) bool { return kload[rawVal(n)] != nil || byCanon[n.canon()] != nil }
	// classify the uses of a key read at n
	type keyUse struct {
		kind string // compare, unescape, store, escape, append, other
		n    *Node
		name *Node
	}
	useCache := map[*Node][]keyUse{}
	useOfKey := func(n *Node) []keyUse {
		c := n
		if l, ok := useCache[c]; ok {
			return l
		}
		var out []keyUse
		seen := map[*Node]bool{}
		var walk func(x *Node)
		walk = func(x *Node) {
			if seen[x] {
				return
			}
			seen[x] = true
			for _, q := range uses[x] {
				if passThrough(q) {
					walk(q.canon())
					continue
				}
				other := func() *Node {
					for _, a := range q.Args {
						if rawVal(a) != x {
							return a.canon()
						}
					}
					return nil
				}
				switch q.Op {
				case OBin:
					if o := other(); (q.Tok == token.EQL || q.Tok == token.NEQ) && o != nil {
						out = append(out, keyUse{"compare", q, o})
						continue
					}
				case OCall:
					if q.Callee != nil && !p.internal(q.Callee) {
						switch {
						case q.Callee.Name() == "EqualFold" && len(q.Args) == 2:
							if o := other(); o != nil {
								out = append(out, keyUse{"compare", q, o})
								continue
							}
						case strings.HasPrefix(q.Callee.Name(), "ParserEscape"):
							out = append(out, keyUse{"unescape", q, nil})
							continue
						case strings.HasPrefix(q.Callee.Name(), "EscapeJson"):
							out = append(out, keyUse{"escape", q, nil})
							continue
						}
					}
					if q.Callee != nil && p.internal(q.Callee) {
						done := false
						for i, a := range q.Args {
							if rawVal(a) == x {
								if j := comparesWith(q.Callee, i); j >= 0 {
									out = append(out, keyUse{"compare", q, q.Args[j].canon()})
									done = true
								}
							}
						}
						if done {
							continue
						}
					}
				case OStore:
					if owner[q] != nil && rawNode(q.Args[0]).Op == OFieldAddr && fieldNameOf(rawNode(q.Args[0])) == "strkv.K" && rawVal(q.Args[1]) == x {
						out = append(out, keyUse{"store", q, nil})
						continue
					}
				case OBuiltin:
					if q.Name == "append" && json {
						out = append(out, keyUse{"append", q, nil})
						continue
					}
					if q.Name == "len" && json {
						continue
					}
				case OIf, OJump, OPanic:
					continue
				}
				out = append(out, keyUse{"other", q, nil})
			}
		}
		walk(c)
		useCache[c] = out
		return out
	}
	compareOf := map[*Node]bool{}
	for c := range kload {
		for _, q := range useOfKey(c) {
			if q.kind == "escape" || q.kind == "append" {
				fl.Keep(c.canon())
			}
			if q.kind == "compare" {
				compareOf[q.n.canon()] = true
				fl.Keep(q.n)
			}
		}
	}
	fl.Edge = func(st *FState, iff *Node) {
		ks := st.C.(*keyState)
		for o, k := range ks.load {
			v, ok := st.decide(k, 0)
			if !ok {
				continue
			}
			if old, has := ks.ku[o]; !has || old[0] == 'i' || old[0] == 'm' || old == "?" || old == "s" {
				if v {
					ks.ku[o] = "T"
				} else {
					ks.ku[o] = "F"
				}
			}
		}
		c := st.res(iff.Args[0])
		for i := 0; i < 8 && c.Op == OUn; i++ {
			c = st.res(c.Args[0])
		}
		if compareOf[c] {
			if v, ok := st.decide(c, 0); ok && v == (c.Tok != token.NEQ) {
				ks.match = true
			}
		}
	}
	var freeze func(st *FState, x *Node, v string)
	apply := func(st *FState, n, o *Node, e string) {
		ks := st.C.(*keyState)
		v, x := get(st, o)
		if e != "i" && e != "" {
			freeze(st, x, v)
			ks.chg[x] = true
		}
		switch e {
		case "i", "":
		case "m":
			switch {
			case v == "T":
			case v[0] == 'i' && v == fmt.Sprintf("i%d", x.ID):
				ks.ku[x] = fmt.Sprintf("m%d", x.ID)
			case v[0] == 'm':
			default:
				ks.ku[x] = "?"
			}
		default:
			ks.ku[x] = e
			if e == "F" {
				ks.empty[x] = true
			}
		}
		if e != "i" && e != "" {
			delete(ks.load, x)
		}
	}
	useAt := map[*Node]map[*Node]string{} // where a key is written -> reads of it
	written := func(st *FState, n *Node, kind string) {
		ks := st.C.(*keyState)
		frozen, live := ks.pend[n]
		o := owner[n]
		if !live || o == nil {
			return
		}
		if frozen != "" {
			x := objPtr(st.res(o))
			now, has := ks.ku[x]
			ks.ku[x] = frozen
			defer func() {
				delete(ks.ku, x)
				if has {
					ks.ku[x] = now
				}
			}()
		}
		if kind == "escape" {
			need(st, n, o, "T", "escapes once more the keys of")
			return
		}
		if styleOf == nil || !haveNoEsc {
			return
		}
		okN[n] = true
		v, _ := get(st, o)
		m, isM := st.val(styleOf).asMask()
		if !isM {
			m = rangeMask(st.val(styleOf))
		}
		ne := uint64(1) << uint(noEsc)
		switch {
		case v == "T":
			if m&^ne != 0 && !stylesOnly(p, m, ne) {
				fail(n, "writes without escaping the literal keys of an object, in a style that escapes")
			}
		case m&ne != 0:
			need(st, n, o, "T", "writes for a style without escapes the keys of")
		case v != "F" && v != "s":
			need(st, n, o, "F", "writes without escaping the keys of")
		}
	}
	// freeze: keys read before the mark of their object changes
	freeze = func(st *FState, x *Node, v string) {
		ks := st.C.(*keyState)
		for k, f := range ks.pend {
			if f == "" && owner[k] != nil && objPtr(st.res(owner[k])) == x {
				ks.pend[k] = v
			}
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		ks := st.C.(*keyState)
		if l := useAt[n]; l != nil {
			var ks []*Node
			for k := range l {
				ks = append(ks, k)
			}
			sortNodes(ks)
			for _, k := range ks {
				written(st, k, l[k])
			}
		}
		switch n.Op {
		case OLoad, OField:
			o := owner[n]
			if o == nil {
				break
			}
			if n.Op == OLoad && isBoolNode(n) {
				x := objPtr(st.res(o))
				ks.load[x] = n.canon()
				if v, known := ks.ku[x]; known && (v == "T" || v == "F") {
					st.set(n.canon(), boolAV(v == "T"))
				}
				break
			}
			v, x := get(st, o)
			for _, q := range useOfKey(n) {
				switch q.kind {
				case "compare":
					okN[n] = true
					if v == "T" {
						break
					}
					if (v == "F" || v == "s" || v[0] == 'i') && noSlash(st, q.name) {
						ks.raw[x] = n
						break
					}
					need(st, n, o, "T", "compares a name that may contain an escape with the keys of")
				case "unescape":
					need(st, n, o, "F", "unescapes the keys of")
					ks.unesc[x] = n
				case "store":
					d := objPtr(st.res(owner[q.n]))
					if d != x {
						k := [2]*Node{d, x}
						ks.copied[k] = v
						ks.copyAt[k] = n
					}
				case "escape", "append":
					// judged where it is written: the mark may be tested in between
					if useAt[q.n] == nil {
						useAt[q.n] = map[*Node]string{}
					}
					useAt[q.n][n] = q.kind
					ks.pend[n] = ""
				default:
					need(st, n, o, "T", "uses the keys of")
				}
			}
		case OStore:
			o := owner[n]
			if o == nil {
				break
			}
			a := rawNode(n.Args[0])
			val := n.Args[1]
			if fieldNameOf(a) == kuClass {
				x := objPtr(st.res(o))
				delete(ks.load, x)
				ks.chg[x] = true
				c := st.res(val)
				okN[n] = true
				before, _ := get(st, x)
				freeze(st, x, before)
				defer func() {
					after := ks.ku[x]
					if after != "T" && after != before && (before == "T" || before[0] == 'i' || before[0] == 'm') {
						ks.low[x] = n
					} else if after == "T" {
						delete(ks.low, x)
					}
				}()
				if v, ok := st.decide(c, 0); ok {
					if v {
						ks.ku[x] = "T"
					} else {
						ks.ku[x] = "F"
					}
				} else {
					// copied from another object?
					ks.ku[x] = "?"
					lv := val
					for lv.Op != OLoad && lv.repl != nil {
						lv = lv.repl
					}
					for so, k := range ks.load {
						if k == val.canon() || k == c {
							ks.ku[x], _ = get(st, so)
						}
					}
				}
				break
			}
			if fieldNameOf(a) == "VObject.strkvs" {
				x := objPtr(st.res(o))
				if emptySlice(val) {
					ks.empty[x] = true
				}
				break
			}
			// a key is stored
			c := val.canon()
			if c.Op == OConst || isKey(c) {
				break
			}
			raw := false
			switch c.Op {
			case OParam:
				if _, isP := pidx[c]; !isP {
					return true
				}
				if !isExported(u.Fn) {
					// the caller's business: JSON-only helpers carry keys as they stand in the text
					if kc.jsonIn[u.Fn] == kc.otherIn[u.Fn] {
						return true
					}
					raw = kc.jsonIn[u.Fn] && !kc.otherIn[u.Fn]
				}
			case OCall, OExtract, OMemPhi, OPhi, OInit, OHavoc, OConvert, OSlice:
				if c.Op == OCall && c.Callee != nil && strings.HasPrefix(c.Callee.Name(), "ParserEscape") {
					return true
				}
				switch {
				case kc.jsonIn[u.Fn] && !kc.otherIn[u.Fn]:
					raw = true
				case kc.otherIn[u.Fn] && !kc.jsonIn[u.Fn]:
				default:
					return true
				}
			default:
				return true
			}
			if raw {
				need(st, n, o, "F", "stores a key as it stands in the JSON text in")
			} else {
				need(st, n, o, "T", "stores a literal key in")
			}
		case OCall, ODefer:
			if n.Callee == nil || !p.internal(n.Callee) {
				break
			}
			for i, w := range kc.req[n.Callee] {
				if i < len(n.Args) {
					need(st, n, n.Args[i], w, map[string]string{"T": "hands to " + fnName(n.Callee) + ", which uses keys as literal ones,", "F": "hands to " + fnName(n.Callee) + ", which takes keys as escaped ones,"}[w])
				}
			}
			if kc.touches[n.Callee] {
				for i, a := range n.Args {
					if a.Typ != nil && isObj(a) {
						apply(st, n, a, kc.eff[n.Callee][i])
					}
				}
			}
		case OReturn:
			for x, at := range ks.unesc {
				if v, _ := get(st, x); v != "T" {
					fail(at, "unescapes the keys of an object without marking them as literal")
				}
			}
			for x, at := range ks.low {
				if !ks.empty[x] {
					fail(at, "marks the keys of an object as escaped, or as another object's are, although it may already have literal ones")
				}
			}
			for k, v := range ks.copied {
				dv, _ := get(st, k[0])
				at := ks.copyAt[k]
				okN[at] = true
				if dv == v || v == "?" || dv == "?" || v == "s" || dv == "s" && v == "F" {
					continue
				}
				fail(at, "copies keys to another object that are marked differently there (%s, were %s)", kuWord(dv), kuWord(v))
			}
			if !ks.match {
				for x, at := range ks.raw {
					if v, _ := get(st, x); v != "T" {
						fail(at, "gives up a lookup by name after comparing only the keys as they stand in the JSON text")
					}
				}
			}
			for q, i := range pidx {
				if !isObj(q) || isConstHere(st, q) {
					continue
				}
				v, _ := get(st, q)
				switch {
				case !ks.chg[q], v == fmt.Sprintf("i%d", q.ID):
					v = "i"
				case v == fmt.Sprintf("m%d", q.ID):
					v = "m"
				case v != "T" && v != "F" && v != "s":
					v = "?"
				}
				if kc.eff[u.Fn] == nil {
					kc.eff[u.Fn] = map[int]string{}
				}
				if j := joinKU(kc.eff[u.Fn][i], v); j != kc.eff[u.Fn][i] {
					kc.eff[u.Fn][i] = j
					kc.changed = true
				}
			}
			if len(n.Args) > 0 && isObj(n.Args[0]) && !n.Args[0].canon().IsNil {
				v, x := get(st, n.Args[0])
				if v != "T" && v != "F" && v != "s" || constGlobal(x) {
					v = "?"
				}
				if j := joinKU(kc.ret[u.Fn], v); j != kc.ret[u.Fn] {
					kc.ret[u.Fn] = j
					kc.changed = true
				}
			}
		}
		return true
	}
	fl.run()
	if os.Getenv("DXPROF") != "" {
		fmt.Fprintln(os.Stderr, "PROF", fnName(u.Fn), len(all), fl.Visits, fl.Too)
	}
	if fl.Too {
		kc.r.Counts["too_large"]++
		return
	}
	kc.results[u] = func() {
		for n := range okN {
			if bad[n] == "" {
				kc.r.count("key_uses")
			}
		}
		var ns []*Node
		for n := range bad {
			ns = append(ns, n)
		}
		sortNodes(ns)
		for _, n := range ns {
			kc.r.count("key_uses")
			kc.r.bad(p, "key-escape-state", n.Pos, n.Frame.chain(p), "%s", bad[n])
		}
	}
}

// comparesWith: the function does nothing with its i'th parameter but compare it with another one (whose index is
// returned, or -1), and returns the outcome.
func comparesWith(f *ssa.Function, i int) int {
	if i >= len(f.Params) || f.Signature.Results().Len() != 1 || !isBoolType(f.Signature.Results().At(0).Type()) || f.Params[i].Referrers() == nil {
		return -1
	}
	x := f.Params[i]
	j := -1
	with := func(a, b ssa.Value) bool {
		o := a
		if o == x {
			o = b
		}
		for k, q := range f.Params {
			if q == o && k != i && (j < 0 || j == k) {
				j = k
				return true
			}
		}
		return false
	}
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if r.Op != token.EQL || !with(r.X, r.Y) {
				return -1
			}
		case *ssa.Call:
			g := r.Call.StaticCallee()
			if g == nil || len(r.Call.Args) != 2 || g.Name() != "EqualFold" && comparesWith(g, 0) < 0 || !with(r.Call.Args[0], r.Call.Args[1]) {
				return -1
			}
		default:
			return -1
		}
	}
	return j
}

// emptySlice: the value is a slice without elements.
func emptySlice(v *Node) bool {
	v = v.canon()
	switch v.Op {
	case OConst:
		return v.IsNil
	case OSlice:
		// x[:0]
		i := 1
		if v.Lo {
			i = 2
		}
		return v.Hi && isZeroConst(v.Args[i])
	case OMakeSlice:
		return isZeroConst(v.Args[0])
	}
	return false
}

func isZeroConst(n *Node) bool {
	n = n.canon()
	if n.Op != OConst || n.Const == nil {
		return false
	}
	v, ok := constant.Int64Val(constant.ToInt(n.Const))
	return ok && v == 0
}

// comparedInts: results (joins of several integers) that are compared with a constant, and what they are joined from.
func comparedInts(all []*Node) map[*Node]bool {
	out := map[*Node]bool{}
	var add func(n *Node)
	add = func(n *Node) {
		n = n.canon()
		if out[n] || n.Op == OConst {
			return
		}
		out[n] = true
		if n.Op == OPhi {
			for _, a := range n.Args {
				add(a)
			}
		}
	}
	for _, n := range all {
		if n.Op != OBin || len(n.Args) != 2 {
			continue
		}
		switch n.Tok {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			a, b := n.Args[0].canon(), n.Args[1].canon()
			if b.Op == OConst && a.Op == OPhi && isIntType2(a.Typ) {
				add(a)
			}
			if a.Op == OConst && b.Op == OPhi && isIntType2(b.Typ) {
				add(b)
			}
		}
	}
	return out
}

// isConstHere: on this path the value is one of the shared constants.
func isConstHere(st *FState, q *Node) bool {
	for k, v := range st.fact {
		if v && k.op == token.EQL && (k.a == q && constGlobal(k.b) || k.b == q && constGlobal(k.a)) {
			return true
		}
	}
	return false
}

func kuWord(v string) string {
	switch {
	case v == "T":
		return "literal"
	case v == "F":
		return "escaped"
	}
	return "as the object they came from"
}

// stylesOnly: all styles in the mask are outside the declared ones, except those in ne.
func stylesOnly(p *Program, m, ne uint64) bool {
	for _, n := range []string{"JSE_OnlyAnsiChar", "JSE_AllEscape"} {
		if v, ok := p.intConst(n); ok && m&(1<<uint(v)) != 0 {
			return false
		}
	}
	return true
}

func (c *Check) keysUnescaped() *Result {
	r := newResult()
	r.Min = 20
	r.Rules = []string{
		"a key is returned, passed on, compared with another key or written in a binary format only on paths where its object is marked as having literal keys",
		"a name is compared with keys that may still be escaped only if the name contains no backslash, and a lookup that does not find the name that way compares it with the unescaped keys before it gives up",
		"keys are unescaped only while the object is marked as having escaped keys, and the mark is set before the function returns",
		"a key given through the API or by a binary or YAML decoder is stored only in an object marked as having literal keys; a key as it stands in JSON text only in one that is not; keys copied between objects keep their mark",
		"the JSON printers escape literal keys exactly in the styles that escape, and write keys as they stand only while they are marked as escaped",
	}
	r.Assumptions = []string{"a callback does not change the tree it is visiting", "two different pointers denote different objects unless they are the same value"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	kc := &keyChk{p: p, r: r, req: map[*ssa.Function]map[int]string{}, eff: map[*ssa.Function]map[int]string{}, ret: map[*ssa.Function]string{}, touches: map[*ssa.Function]bool{}}
	for f, m := range p.mods {
		kc.touches[f] = m.classes[kuClass]
	}
	sel := func(pred func(string) bool) map[*ssa.Function]bool {
		return p.reachable(p.entries(func(f *ssa.Function) bool { return isDecodeEntry(f) && pred(strings.ToLower(f.Name())) }))
	}
	kc.jsonIn = sel(func(s string) bool { return strings.Contains(s, "json") || s == "unmarshal" })
	kc.otherIn = sel(func(s string) bool {
		return strings.Contains(s, "msgpack") || strings.Contains(s, "bson") || strings.Contains(s, "yaml")
	})
	keyed := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					s := structOf(deref(fa.X.Type()))
					nm := tname(deref(fa.X.Type())) + "." + s.Field(fa.Field).Name()
					if nm == kuClass || nm == "strkv.K" {
						keyed[f] = true
					}
				}
			}
		}
	}
	small, mid := inlineUpTo(30), inlineUpTo(80)
	// what works on objects directly is looked into; operations on values are taken by what they do to their arguments
	direct := func(g *ssa.Function) bool {
		for _, q := range g.Params {
			if t := tname(q.Type()); t == "*VObject" || t == "*strkv" || t == "strkv" {
				return true
			}
		}
		return false
	}
	us := p.units(func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		return small(ir, g, depth, stack) || keyed[g] && direct(g) && mid(ir, g, depth, stack)
	})
	kc.results = map[*unit]func(){}
	fixpoint(us, 12, func(u *unit) bool {
		kc.changed = false
		kc.unit(u)
		return kc.changed
	})
	if os.Getenv("DXSUM") != "" {
		for _, u := range us {
			fmt.Println("KU", fnName(u.Fn), kc.eff[u.Fn], kc.ret[u.Fn], kc.req[u.Fn])
		}
	}
	for _, u := range us {
		r.Functions[fnName(u.Fn)] = true
		if f := kc.results[u]; f != nil {
			f()
		}
	}
	return r
}

// intConst: the value of a package constant.
func (p *Program) intConst(name string) (int64, bool) {
	c, ok := p.SSA.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

func boolAV(v bool) AV {
	if v {
		return AV{lo: 1, hi: 1}
	}
	return AV{}
}
