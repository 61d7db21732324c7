package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Dataflow with facts over the inlined program. A state holds what is known on the paths that lead to a point: which
// value every join stands for, ranges of integers, outcomes of conditions, and the state of the rule's own automaton.
// States are kept apart as long as they differ; at loop heads values are widened, so the iteration ends.

const inf = math.MaxInt64

type AV struct {
	lo, hi int64
	mask   uint64 // set of possible values, when hasMask (all within 0..63)
	hasM   bool
}

func (a AV) exact() (int64, bool) { return a.lo, a.lo == a.hi }

func (a AV) empty() bool { return a.lo > a.hi || a.hasM && a.mask == 0 }

func (a AV) norm() AV {
	if a.hasM {
		for a.lo <= a.hi && (a.lo < 0 || a.lo > 63 || a.mask&(1<<uint(a.lo)) == 0) {
			if a.lo > 63 {
				a.mask = 0
				break
			}
			a.lo++
		}
		for a.hi >= a.lo && (a.hi > 63 || a.hi >= 0 && a.mask&(1<<uint(a.hi)) == 0) {
			a.hi--
		}
	}
	return a
}

func (a AV) meet(b AV) AV {
	r := AV{lo: max(a.lo, b.lo), hi: min(a.hi, b.hi)}
	switch {
	case a.hasM && b.hasM:
		r.hasM, r.mask = true, a.mask&b.mask
	case a.hasM:
		r.hasM, r.mask = true, a.mask&rangeMask(b)
	case b.hasM:
		r.hasM, r.mask = true, b.mask&rangeMask(a)
	}
	return r.norm()
}

func (a AV) join(b AV) AV {
	r := AV{lo: min(a.lo, b.lo), hi: max(a.hi, b.hi)}
	am, aok := a.asMask()
	bm, bok := b.asMask()
	if aok && bok {
		r.hasM, r.mask = true, am|bm
	}
	return r
}

func (a AV) asMask() (uint64, bool) {
	if a.hasM {
		return a.mask, true
	}
	if a.lo >= 0 && a.hi <= 63 {
		return rangeMask(a), true
	}
	return 0, false
}

func rangeMask(a AV) uint64 {
	var m uint64
	for i := max(a.lo, 0); i <= min(a.hi, 63); i++ {
		m |= 1 << uint(i)
	}
	return m
}

func (a AV) String() string {
	s := fmt.Sprintf("[%d,%d]", a.lo, a.hi)
	if a.hasM {
		s += fmt.Sprintf("&%x", a.mask)
	}
	return s
}

type factKey3 struct {
	op   token.Token
	a, b *Node
}

type CState interface {
	Key() string
	Clone() CState
}

// CPruner: client state that refers to nodes
type CPruner interface {
	Prune(keep func(*Node) bool)
	// Reenter: a loop head is entered again; values of nodes of the loop are gone, except that the head's phis take
	// over what their arguments had.
	Reenter(st *FState, gone func(*Node) bool, phis map[*Node]*Node)
}

type FState struct {
	phi  map[*Node]*Node
	av   map[*Node]AV
	fact map[factKey3]bool
	C    CState
	// lossy: joined with others because there were too many: not every fact of the path is there
	lossy bool
}

func (s *FState) clone() *FState {
	n := &FState{lossy: s.lossy, phi: make(map[*Node]*Node, len(s.phi)), av: make(map[*Node]AV, len(s.av)), fact: make(map[factKey3]bool, len(s.fact))}
	for k, v := range s.phi {
		n.phi[k] = v
	}
	for k, v := range s.av {
		n.av[k] = v
	}
	for k, v := range s.fact {
		n.fact[k] = v
	}
	if s.C != nil {
		n.C = s.C.Clone()
	}
	return n
}

func (s *FState) key() string {
	var ks []string
	for k, v := range s.phi {
		ks = append(ks, fmt.Sprintf("p%d=%d", k.ID, v.ID))
	}
	for k, v := range s.av {
		ks = append(ks, fmt.Sprintf("a%d=%s", k.ID, v))
	}
	for k, v := range s.fact {
		b := 0
		if k.b != nil {
			b = k.b.ID
		}
		ks = append(ks, fmt.Sprintf("f%d:%d:%d=%v", k.op, k.a.ID, b, v))
	}
	sort.Strings(ks)
	c := ""
	if s.C != nil {
		c = s.C.Key()
	}
	if s.lossy {
		c += "|lossy"
	}
	return strings.Join(ks, ",") + "|" + c
}

func (s *FState) res(n *Node) *Node {
	for i := 0; i < 64; i++ {
		n = n.canon()
		if v, ok := s.phi[n]; ok && v != n {
			n = v
			continue
		}
		if n.Op == OChangeType {
			n = n.Args[0]
			continue
		}
		return n
	}
	return n
}

func typeRange(t types.Type) AV {
	if t == nil {
		return AV{lo: math.MinInt64, hi: inf}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return AV{lo: math.MinInt64, hi: inf}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return AV{lo: 0, hi: 1}
	case types.Uint8:
		return AV{lo: 0, hi: 255}
	case types.Int8:
		return AV{lo: -128, hi: 127}
	case types.Uint16:
		return AV{lo: 0, hi: 65535}
	case types.Int16:
		return AV{lo: -32768, hi: 32767}
	case types.Uint32:
		return AV{lo: 0, hi: math.MaxUint32}
	case types.Int32:
		return AV{lo: math.MinInt32, hi: math.MaxInt32}
	case types.Uint64, types.Uint, types.Uintptr:
		return AV{lo: 0, hi: inf}
	}
	return AV{lo: math.MinInt64, hi: inf}
}

func satAdd(a, b int64) int64 {
	if a == inf || b == inf {
		return inf
	}
	if a == math.MinInt64 || b == math.MinInt64 {
		return math.MinInt64
	}
	if b > 0 && a > inf-b {
		return inf
	}
	if b < 0 && a < math.MinInt64-b {
		return math.MinInt64
	}
	return a + b
}

func satNeg(a int64) int64 {
	if a == inf {
		return math.MinInt64
	}
	if a == math.MinInt64 {
		return inf
	}
	return -a
}

func isBoolNode(n *Node) bool {
	if n.Typ == nil {
		return false
	}
	b, ok := n.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// val is the range of an integer or boolean node in a state.
func (s *FState) val(n *Node) AV { return s.val0(n, 0) }

func (s *FState) val0(n *Node, d int) AV {
	n = s.res(n)
	if n.Op == OConst {
		if n.Const != nil {
			switch n.Const.Kind() {
			case constant.Int:
				if v, ok := constant.Int64Val(n.Const); ok {
					return AV{lo: v, hi: v}
				}
			case constant.Bool:
				if constant.BoolVal(n.Const) {
					return AV{lo: 1, hi: 1}
				}
				return AV{lo: 0, hi: 0}
			}
		}
		return typeRange(n.Typ)
	}
	r := typeRange(n.Typ)
	if d < 12 {
		r = s.derive(n, r, d)
	}
	if v, ok := s.av[n]; ok {
		r = r.meet(v)
	}
	if d < 6 && r.lo != r.hi && isIntType(n.Typ) {
		for k, v := range s.fact {
			if !v || k.op != token.EQL {
				continue
			}
			if k.a == n && k.b.Op != OConst {
				r = r.meet(s.val0(k.b, d+5))
			} else if k.b == n && k.a.Op != OConst {
				r = r.meet(s.val0(k.a, d+5))
			}
		}
	}
	if isBoolNode(n) && r.lo != r.hi {
		if b, ok := s.decide(n, d); ok {
			if b {
				return AV{lo: 1, hi: 1}
			}
			return AV{lo: 0, hi: 0}
		}
	}
	return r
}

func (s *FState) derive(n *Node, r AV, d int) AV {
	switch n.Op {
	case OBuiltin:
		if n.Name == "len" || n.Name == "cap" {
			x := s.res(n.Args[0])
			if x.Op == OConst {
				if x.IsNil {
					return AV{lo: 0, hi: 0}
				}
				if x.Const != nil && x.Const.Kind() == constant.String {
					l := int64(len(constant.StringVal(x.Const)))
					return AV{lo: l, hi: l}
				}
			}
			return AV{lo: 0, hi: inf}
		}
	case OConvert:
		if isIntType(n.Typ) && isIntType(n.Args[0].Typ) {
			a := s.val0(n.Args[0], d+1)
			if a.lo >= r.lo && a.hi <= r.hi {
				if isUnsigned(n.Args[0].Typ) && a.hi == inf && !isUnsigned(n.Typ) {
					return r // may wrap to a negative
				}
				return a
			}
			if bits, uns, ok := intBits(n.Typ); ok && bits < 64 && a.lo > math.MinInt64 && a.hi < inf {
				// the same window of values, moved
				lo, hi := a.lo&(1<<uint(bits)-1), a.hi&(1<<uint(bits)-1)
				if !uns {
					lo, hi = lo<<uint(64-bits)>>uint(64-bits), hi<<uint(64-bits)>>uint(64-bits)
				}
				if hi-lo == a.hi-a.lo && hi >= lo {
					return AV{lo: lo, hi: hi}
				}
			}
			if a.lo < r.lo || a.hi > r.hi {
				return r
			}
		}
	case OUn:
		if n.Tok == token.SUB && isIntType(n.Typ) {
			a := s.val0(n.Args[0], d+1)
			return r.meet(AV{lo: satNeg(a.hi), hi: satNeg(a.lo)})
		}
	case OBin:
		if !isIntType(n.Typ) {
			return r
		}
		a, b := s.val0(n.Args[0], d+1), s.val0(n.Args[1], d+1)
		var v AV
		if x, ok := a.exact(); ok && x >= 0 && x < 1<<40 && n.Tok != token.ADD && n.Tok != token.SUB {
			if y, ok := b.exact(); ok && y >= 0 && y < 1<<40 {
				k, done := int64(0), true
				switch n.Tok {
				case token.AND:
					k = x & y
				case token.OR:
					k = x | y
				case token.XOR:
					k = x ^ y
				case token.AND_NOT:
					k = x &^ y
				default:
					done = false
				}
				if done && k >= r.lo && k <= r.hi {
					return AV{lo: k, hi: k}
				}
			}
		}
		switch n.Tok {
		case token.ADD:
			v = AV{lo: satAdd(a.lo, b.lo), hi: satAdd(a.hi, b.hi)}
		case token.SUB:
			v = AV{lo: satAdd(a.lo, satNeg(b.hi)), hi: satAdd(a.hi, satNeg(b.lo))}
		case token.AND:
			v = r
			if a.lo >= 0 && b.lo >= 0 {
				v = AV{lo: 0, hi: min(a.hi, b.hi)}
			} else if b.lo >= 0 {
				v = AV{lo: 0, hi: b.hi}
			} else if a.lo >= 0 {
				v = AV{lo: 0, hi: a.hi}
			}
		case token.OR:
			v = r
			if a.lo >= 0 && b.lo >= 0 {
				h := a.hi | b.hi
				for k := uint(1); k < 63; k <<= 1 {
					h |= h >> k
				}
				v = AV{lo: max(a.lo, b.lo), hi: h}
			}
		case token.SHR:
			v = r
			if k, ok := b.exact(); ok && k >= 0 && k < 64 && a.lo >= 0 {
				v = AV{lo: a.lo >> uint(k), hi: a.hi >> uint(k)}
				if a.hi == inf && isUnsigned(n.Args[0].Typ) && k > 0 {
					v.hi = int64(uint64(math.MaxUint64) >> uint(k))
				}
			}
		case token.SHL:
			v = r
			if k, ok := b.exact(); ok && k >= 0 && k < 40 && a.lo >= 0 && a.hi < 1<<20 {
				v = AV{lo: a.lo << uint(k), hi: a.hi << uint(k)}
			}
		case token.REM:
			v = r
			if b.lo > 0 && a.lo >= 0 {
				v = AV{lo: 0, hi: min(a.hi, b.hi-1)}
			}
		case token.QUO:
			v = r
			if k, ok := b.exact(); ok && k > 0 && a.lo >= 0 {
				v = AV{lo: a.lo / k, hi: a.hi / k}
			}
		case token.MUL:
			v = r
			if k, ok := b.exact(); ok && k >= 0 && k < 1<<20 && a.lo >= 0 && a.hi < 1<<40 {
				v = AV{lo: a.lo * k, hi: a.hi * k}
			}
		default:
			return r
		}
		if v.lo < r.lo || v.hi > r.hi {
			return r
		}
		return v
	}
	return r
}

func eqKey(a, b *Node) factKey3 {
	if a.ID > b.ID {
		a, b = b, a
	}
	return factKey3{token.EQL, a, b}
}

// neverNil: values that are pointers to something by construction.
func neverNil(n *Node) bool {
	switch n.Op {
	case OAlloc, OMakeSlice, OMakeMap, OMakeClosure, OFunc, OMakeIface, OFieldAddr, OIndexAddr, OGlobal:
		return true
	case OInit:
		return strings.HasPrefix(n.Name, "global ") && nonNilGlobals[strings.TrimPrefix(n.Name, "global ")]
	}
	return false
}

// decide: the outcome of a condition in a state, if it is known.
func (s *FState) decide(n *Node, d int) (bool, bool) {
	n = s.res(n)
	if n.Op == OConst {
		if n.Const != nil && n.Const.Kind() == constant.Bool {
			return constant.BoolVal(n.Const), true
		}
		return false, false
	}
	if v, ok := s.av[n]; ok && v.lo == v.hi {
		return v.lo == 1, true
	}
	if d > 12 {
		return false, false
	}
	switch n.Op {
	case OUn:
		if n.Tok == token.NOT {
			v, ok := s.decide(n.Args[0], d+1)
			return !v, ok
		}
	case OBin:
		a, b := s.res(n.Args[0]), s.res(n.Args[1])
		switch n.Tok {
		case token.EQL, token.NEQ:
			eq := n.Tok == token.EQL
			if a == b && !isFloatType(a.Typ) {
				return eq, true
			}
			if v, ok := s.fact[eqKey(a, b)]; ok {
				return v == eq, true
			}
			if isIntType(a.Typ) || isBoolNode(a) {
				x, y := s.val0(a, d+1), s.val0(b, d+1)
				if x.lo == x.hi && y.lo == y.hi && x.lo == y.lo && x.lo != inf && x.lo != math.MinInt64 {
					return eq, true
				}
				if x.meet(y).empty() {
					return !eq, true
				}
				return false, false
			}
			if a.Op == OConst && b.Op == OConst {
				if a.IsNil && b.IsNil {
					return eq, true
				}
				if a.Const != nil && b.Const != nil && a.Const.Kind() == b.Const.Kind() {
					return constant.Compare(a.Const, n.Tok, b.Const), true
				}
			}
			if isString(a.Typ) {
				return s.decideLen(a, b, eq, d)
			}
			if a.IsNil && neverNil(b) || b.IsNil && neverNil(a) {
				return !eq, true
			}
			if isPtrLike(a.Typ) && distinctPtr(a, b) {
				return !eq, true
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if !isIntType(a.Typ) {
				return false, false
			}
			x, y := s.val0(a, d+1), s.val0(b, d+1)
			op := n.Tok
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
				if op == token.GTR {
					op = token.LSS
				} else {
					op = token.LEQ
				}
			}
			// x < y / x <= y; the ends of the range stand for "anything beyond"
			if op == token.LSS {
				if x.hi < y.lo && x.hi != inf {
					return true, true
				}
				if x.lo >= y.hi && y.hi != inf {
					return false, true
				}
			} else {
				if x.hi <= y.lo && x.hi != inf {
					return true, true
				}
				if x.lo > y.hi && y.hi != inf {
					return false, true
				}
			}
			if v, ok := s.fact[factKey3{n.Tok, a, b}]; ok {
				return v, true
			}
		}
	}
	return false, false
}

func (s *FState) decideLen(a, b *Node, eq bool, d int) (bool, bool) { return false, false }

func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// distinctPtr: two pointers that cannot be equal.
func distinctPtr(a, b *Node) bool {
	ga := a.Op == OInit && strings.HasPrefix(a.Name, "global ")
	gb := b.Op == OInit && strings.HasPrefix(b.Name, "global ")
	fa, fb := a.Op == OAlloc, b.Op == OAlloc
	switch {
	case ga && gb:
		return a.Name != b.Name && constGlobal(a) && constGlobal(b)
	case fa && fb:
		return a != b
	case fa && gb, fb && ga:
		return true
	}
	return constGlobal(a) && neverConst(b) && !constGlobal(b) && !b.IsNil || constGlobal(b) && neverConst(a) && !constGlobal(a) && !a.IsNil
}

// constGlobal: one of the shared constant values.
func constGlobal(n *Node) bool {
	return n.Op == OInit && strings.HasPrefix(n.Name, "global value") && n.Typ != nil && tname(n.Typ) == "*DxValue"
}

func (s *FState) set(n *Node, v AV) bool {
	n = s.res(n)
	if n.Op == OConst {
		return !s.val(n).meet(v).empty()
	}
	cur := s.val(n).meet(v)
	if cur.empty() {
		return false
	}
	s.av[n] = cur
	// x + c, widening conversions: pass the knowledge on
	switch n.Op {
	case OBin:
		if n.Tok == token.ADD || n.Tok == token.SUB {
			b := s.res(n.Args[1])
			if c, ok := s.val(b).exact(); ok && b.Op == OConst {
				if n.Tok == token.SUB {
					c = -c
				}
				if cur.hi < 1<<62 && cur.lo > -(1<<62) || cur.hi == inf || cur.lo == math.MinInt64 {
					return s.set(n.Args[0], AV{lo: satAdd(cur.lo, -c), hi: satAdd(cur.hi, -c)})
				}
			}
		}
	case OConvert:
		if isIntType(n.Typ) && isIntType(n.Args[0].Typ) && convExact(n.Args[0].Typ, n.Typ) {
			return s.set(n.Args[0], cur)
		}
	}
	return true
}

// refine takes a condition as true or false; false is returned when that cannot be.
func (s *FState) refine(n *Node, pol bool, d int) bool {
	n = s.res(n)
	if v, ok := s.decide(n, 0); ok {
		return v == pol
	}
	if d > 12 {
		return true
	}
	if n.Op != OConst {
		if pol {
			s.av[n] = AV{lo: 1, hi: 1}
		} else {
			s.av[n] = AV{lo: 0, hi: 0}
		}
	}
	switch n.Op {
	case OUn:
		if n.Tok == token.NOT {
			return s.refine(n.Args[0], !pol, d+1)
		}
	case OBin:
		a, b := s.res(n.Args[0]), s.res(n.Args[1])
		op := n.Tok
		if op == token.EQL || op == token.NEQ {
			eq := pol == (op == token.EQL)
			s.fact[eqKey(a, b)] = eq
			if isIntType(a.Typ) || isBoolNode(a) {
				x, y := s.val(a), s.val(b)
				if eq {
					m := x.meet(y)
					return s.set(a, m) && s.set(b, m)
				}
				if c, ok := y.exact(); ok {
					return s.exclude(a, c)
				}
				if c, ok := x.exact(); ok {
					return s.exclude(b, c)
				}
			}
			return true
		}
		if !isIntType(a.Typ) {
			return true
		}
		if op != token.LSS && op != token.LEQ && op != token.GTR && op != token.GEQ {
			return true
		}
		s.fact[factKey3{op, a, b}] = pol
		if !pol {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			}
		}
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		k := int64(0)
		if op == token.LSS {
			k = 1
		}
		x, y := s.val(a), s.val(b)
		return s.set(a, AV{lo: math.MinInt64, hi: satAdd(y.hi, -k)}) && s.set(b, AV{lo: satAdd(x.lo, k), hi: inf})
	}
	return true
}

func (s *FState) exclude(n *Node, c int64) bool {
	v := s.val(n)
	if v.lo == c && v.lo != math.MinInt64 {
		return s.set(n, AV{lo: c + 1, hi: inf})
	}
	if v.hi == c && v.hi != inf {
		return s.set(n, AV{lo: math.MinInt64, hi: c - 1})
	}
	if m, ok := v.asMask(); ok && c >= 0 && c < 64 {
		v.hasM, v.mask = true, m&^(1<<uint(c))
		return s.set(n, v)
	}
	if b, ok := n.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && v.lo >= 0 && c < 64 && c >= 0 && isValueType(n.Typ) {
		v.hasM, v.mask = true, ^uint64(0)&^(1<<uint(c))
		v.hi = min(v.hi, 63)
		return s.set(n, v)
	}
	return true
}

// isValueType: the enumeration of value types; only its own values are considered.
func isValueType(t types.Type) bool { return t != nil && tname(t) == "ValueType" }

// ---- the engine ----------------------------------------------------------------------------------------------

type Flow struct {
	IR      *IR
	Max     int // states kept apart per block
	Step    func(s *FState, n *Node) bool
	Init    CState
	Seed    func(s *FState)
	live    map[*Block]map[*Node]bool
	seen    map[*Block]map[string]bool
	joined  map[*Block]map[string]*FState
	Too     bool // too many states
	Visits  int
	counted map[*Node][]*Cover
	now     *FState
	Unsure  int // reports held back because not all facts of the path are known
	Track   func(n *Node) bool // nodes worth remembering something about (nil: all)
	Limit   int
	consts  []*Node
	Edge    func(s *FState, iff *Node) // what else follows from a branch taken
	Forked  func(s *FState)            // set: split on undecided truths that are joined; called for every part
}

// inLoop: the node is (re)computed in the loop.
func inLoop(l *Loop, n *Node) bool {
	n = n.canon()
	return n.Blk != nil && l.Blocks[n.Blk]
}

// unsure: the state at hand stands for several that had to be joined, so that the absence of a fact
// says nothing.
func (fl *Flow) unsure() bool {
	if fl.now != nil && fl.now.lossy {
		fl.Unsure++
		return true
	}
	return false
}

func (fl *Flow) computeLive() {
	own := map[*Block]map[*Node]bool{}
	var close func(set map[*Node]bool, n *Node)
	close = func(set map[*Node]bool, n *Node) {
		n = n.canon()
		if n.Op == OConst || set[n] {
			return
		}
		set[n] = true
		if n.Op == OPhi || n.Op == OMemPhi {
			return
		}
		for _, a := range n.Args {
			close(set, a)
		}
	}
	for _, b := range fl.IR.Blocks {
		own[b] = map[*Node]bool{}
	}
	for _, b := range fl.IR.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OPhi {
				for i, a := range n.Args {
					if i < len(b.Preds) {
						close(own[b.Preds[i]], a)
					}
				}
				continue
			}
			if n.canon() != n {
				close(own[b], n)
				continue
			}
			for _, a := range n.Args {
				close(own[b], a)
			}
		}
		for _, n := range fl.IR.memPhisOf(b) {
			for i, a := range n.Args {
				close(own[b.Preds[i]], a)
			}
		}
	}
	fl.live = map[*Block]map[*Node]bool{}
	for _, b := range fl.IR.Blocks {
		m := map[*Node]bool{}
		for n := range own[b] {
			m[n] = true
		}
		fl.live[b] = m
	}
	for ch := true; ch; {
		ch = false
		for i := len(fl.IR.Blocks) - 1; i >= 0; i-- {
			b := fl.IR.Blocks[i]
			m := fl.live[b]
			for _, s := range b.Succs {
				for n := range fl.live[s] {
					if !m[n] {
						m[n] = true
						ch = true
					}
				}
			}
		}
	}
}

// Keep marks a node as needed everywhere (because the rule will ask for it).
func (fl *Flow) Keep(ns ...*Node) {
	for _, b := range fl.IR.Blocks {
		for _, n := range ns {
			fl.keep1(fl.live[b], n)
		}
	}
}

func (fl *Flow) keep1(m map[*Node]bool, n *Node) {
	n = n.canon()
	if n.Op == OConst || m[n] {
		return
	}
	m[n] = true
	if n.Op == OPhi || n.Op == OMemPhi {
		return
	}
	for _, a := range n.Args {
		fl.keep1(m, a)
	}
}

func (fl *Flow) prepare() {
	fl.consts = nil
	for _, n := range fl.IR.mem.vals {
		if constGlobal(n) && n.repl == nil {
			fl.consts = append(fl.consts, n)
		}
	}
	sortNodes(fl.consts)
	fl.IR.memPhiIdx = nil
	fl.computeLive()
	fl.counted = map[*Node][]*Cover{}
	for _, cv := range fl.IR.covers() {
		if cv.Full && cv.Idx != nil && cv.Idx == cv.Phi && cv.Bound != nil && cv.Bound.Op == OBuiltin && !inLoop(cv.Loop, cv.Slice) {
			fl.counted[cv.If] = append(fl.counted[cv.If], cv)
		}
	}
}

func (fl *Flow) run() {
	if fl.live == nil {
		fl.prepare()
	}
	if fl.Max == 0 {
		fl.Max = 48
	}
	if fl.Limit == 0 {
		fl.Limit = 60000
	}
	fl.seen = map[*Block]map[string]bool{}
	fl.joined = map[*Block]map[string]*FState{}
	st := &FState{phi: map[*Node]*Node{}, av: map[*Node]AV{}, fact: map[factKey3]bool{}}
	if fl.Init != nil {
		st.C = fl.Init.Clone()
	}
	if fl.Seed != nil {
		fl.Seed(st)
	}
	type item struct {
		b  *Block
		st *FState
	}
	// worklist ordered by reverse postorder, so that joins see their predecessors first
	work := map[*Block][]*FState{fl.IR.Entry: {st}}
	for len(work) > 0 {
		var b *Block
		for x := range work {
			if b == nil || x.rpo < b.rpo {
				b = x
			}
		}
		l := work[b]
		cur := l[0]
		if len(l) == 1 {
			delete(work, b)
		} else {
			work[b] = l[1:]
		}
		fl.Visits++
		if fl.Visits > fl.Limit {
			fl.Too = true
			return
		}
		for _, o := range fl.block(b, cur) {
			ns := fl.admit(o.b, o.st)
			if ns != nil {
				work[o.b] = append(work[o.b], ns)
			}
		}
	}
}

// admit files a state for a block; nil when it brings nothing new.
func (fl *Flow) admit(b *Block, st *FState) *FState {
	k := st.key()
	if fl.seen[b] == nil {
		fl.seen[b] = map[string]bool{}
	}
	if fl.seen[b][k] {
		return nil
	}
	if len(fl.seen[b]) < fl.Max {
		fl.seen[b][k] = true
		return st
	}
	// too many: join with what was joined before
	ck := ""
	if st.C != nil {
		ck = st.C.Key()
	}
	var bs []string
	for k, v := range st.phi {
		if isBoolNode(k) {
			if v.Op == OConst {
				bs = append(bs, fmt.Sprintf("%d=%s", k.ID, v.String()))
			} else {
				bs = append(bs, fmt.Sprintf("%d=#%d", k.ID, v.ID))
			}
		}
	}
	sort.Strings(bs)
	ck += "|" + strings.Join(bs, ",")
	if fl.joined[b] == nil {
		fl.joined[b] = map[string]*FState{}
	}
	j := fl.joined[b][ck]
	if j == nil {
		fl.joined[b][ck] = st
		fl.seen[b][k] = true
		return st
	}
	ns := fl.joinStates(j, st)
	nk := ns.key()
	if nk == j.key() || fl.seen[b][nk] {
		fl.joined[b][ck] = ns
		return nil
	}
	fl.joined[b][ck] = ns
	fl.seen[b][nk] = true
	return ns.clone()
}

func (fl *Flow) joinStates(a, b *FState) *FState {
	n := &FState{lossy: true, phi: map[*Node]*Node{}, av: map[*Node]AV{}, fact: map[factKey3]bool{}, C: a.C}
	if a.C != nil {
		n.C = a.C.Clone()
	}
	for k, v := range a.phi {
		if b.phi[k] == v {
			n.phi[k] = v
		} else if isIntType2(k.Typ) {
			n.av[k] = a.val(k).join(b.val(k))
		}
	}
	for k := range b.phi {
		if _, ok := a.phi[k]; !ok && isIntType2(k.Typ) {
			n.av[k] = a.val(k).join(b.val(k))
		}
	}
	// what is known about both values a join may stand for is known about the join
	var lift func(k *Node)
	lift = func(k *Node) {
		x, y := a.res(k), b.res(k)
		if x == y {
			return
		}
		for f, v := range a.fact {
			var o *Node
			switch {
			case f.op == token.EQL && f.a == x:
				o = f.b
			case f.op == token.EQL && f.b == x:
				o = f.a
			default:
				continue
			}
			if w, ok := b.fact[eqKey(y, o)]; ok && w == v || !ok && !v && (distinctPtr(y, o) || neverNil(y) && o.IsNil) {
				n.fact[eqKey(k, o)] = v
			}
		}
		for f, v := range b.fact {
			var o *Node
			switch {
			case f.op == token.EQL && f.a == y:
				o = f.b
			case f.op == token.EQL && f.b == y:
				o = f.a
			default:
				continue
			}
			if _, ok := a.fact[eqKey(x, o)]; !ok && !v && (distinctPtr(x, o) || neverNil(x) && o.IsNil) {
				n.fact[eqKey(k, o)] = v
			}
		}
	}
	lift0 := lift
	lift = func(k *Node) {
		lift0(k)
		x, y := a.res(k), b.res(k)
		if x == y || k.Typ == nil || tname(k.Typ) != "*DxValue" {
			return
		}
		not := func(s *FState, n, g *Node) bool {
			if v, ok := s.fact[eqKey(n, g)]; ok {
				return !v
			}
			return distinctPtr(n, g)
		}
		for _, g := range fl.consts {
			if not(a, x, g) && not(b, y, g) {
				n.fact[eqKey(k, g)] = false
			}
		}
	}
	for k, v := range a.phi {
		if b.phi[k] != v && isPtrLike(k.Typ) {
			lift(k)
		}
	}
	for k := range b.phi {
		if _, ok := a.phi[k]; !ok && isPtrLike(k.Typ) {
			lift(k)
		}
	}
	for k, v := range a.av {
		if w, ok := b.av[k]; ok {
			j := v.join(w)
			if old, ok := n.av[k]; ok {
				j = j.join(old)
			}
			n.av[k] = j
		}
	}
	for k, v := range a.fact {
		if w, ok := b.fact[k]; ok && w == v {
			n.fact[k] = v
		}
	}
	return n
}

func isIntType2(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

type flowOut struct {
	b  *Block
	st *FState
}

func (fl *Flow) block(b *Block, st *FState) []flowOut {
	st = st.clone()
	for _, n := range b.Nodes {
		if n.Op == OPhi || n.Op == OIf || n.Op == OJump {
			continue
		}
		if n.Op == OPanic {
			return nil
		}
		fl.now = st
		if !fl.Step(st, n) {
			return nil
		}
		if n.Op == OReturn {
			return nil
		}
	}
	var outs []flowOut
	t := b.Nodes[len(b.Nodes)-1]
	for i, s := range b.Succs {
		ns := st.clone()
		if t.Op == OIf {
			if !ns.refine(t.Args[0], i == 0, 0) {
				continue
			}
			for _, cv := range fl.counted[t] {
				if (i == 0) != cv.In {
					// counted up to the bound one by one
					ns.fact[eqKey(ns.res(cv.Idx), ns.res(cv.Bound))] = true
				}
			}
			if fl.Edge != nil {
				fl.now = ns
				fl.Edge(ns, t)
			}
		}
		slot := -1
		cnt := 0
		for j, p := range s.Preds {
			if p == b {
				if i == 1 && b.Succs[0] == s && cnt == 0 && len(b.Succs) == 2 {
					cnt++
					continue
				}
				slot = j
				break
			}
		}
		for _, fs := range fl.fork(ns, s, slot) {
			fl.enter(fs, b, s, slot)
			outs = append(outs, flowOut{s, fs})
		}
	}
	return outs
}

// fork splits the state on the truths joined at the start of s that are not decided: what each of them means is
// lost with the join otherwise.
func (fl *Flow) fork(st *FState, s *Block, slot int) []*FState {
	out := []*FState{st}
	if fl.Forked == nil || slot < 0 {
		return out
	}
	split := false
	for _, n := range s.Nodes {
		if n.Op != OPhi || n.canon() != n || !isBoolNode(n) || slot >= len(n.Args) {
			continue
		}
		var next []*FState
		for _, x := range out {
			v := x.res(n.Args[slot])
			if _, ok := x.decide(v, 0); ok || v.Op == OPhi || len(out) > 8 {
				next = append(next, x)
				continue
			}
			for _, pol := range []bool{true, false} {
				y := x.clone()
				if y.refine(v, pol, 0) {
					split = true
					next = append(next, y)
				}
			}
		}
		out = next
	}
	if split {
		for _, x := range out {
			fl.now = x
			fl.Forked(x)
		}
	}
	return out
}

// enter evaluates the joins of s for the edge, forgets what the loop iteration defined, and prunes.
func (fl *Flow) enter(st *FState, from, s *Block, slot int) {
	var inLoop map[*Block]bool
	if s.isLoopHeader() {
		for _, l := range s.loop.Latches {
			if l == from {
				inLoop = s.loop.Blocks
			}
		}
	}
	gone := func(n *Node) bool {
		return inLoop != nil && n.Blk != nil && inLoop[n.Blk] && n.Op != OConst && n.Op != OInit
	}
	type upd struct {
		phi, val *Node
		av       AV
		hasAV    bool
		nilf     int
	}
	var us []upd
	phis := map[*Node]*Node{}
	do := func(n, a *Node) {
		if n.canon() != n {
			return
		}
		v := st.res(a)
		u := upd{phi: n, val: v}
		if gone(v) || inLoop != nil && v == n {
			u.val = nil
			if isIntType2(n.Typ) {
				u.av, u.hasAV = st.val(v), true
				if !isBoolNode(n) && intWide(n.Typ) {
					switch {
					case u.av.lo >= 1:
						u.av = AV{lo: 1, hi: inf}
					case u.av.lo == 0:
						u.av = AV{lo: 0, hi: inf}
					default:
						u.av = typeRange(n.Typ)
					}
				}
				u.av = u.av.meet(typeRange(n.Typ))
			} else if isPtrLike(n.Typ) {
				for k, b := range st.fact {
					if k.op == token.EQL && (k.a == v && k.b.IsNil || k.b == v && k.a.IsNil) {
						if b {
							u.nilf = -1
						} else {
							u.nilf = 1
						}
					}
				}
				if neverNil(v) {
					u.nilf = 1
				}
			}
		}
		us = append(us, u)
		phis[n] = v
	}
	for _, n := range s.Nodes {
		if n.Op == OPhi && slot >= 0 && slot < len(n.Args) {
			do(n, n.Args[slot])
		}
	}
	for _, n := range fl.IR.memPhisOf(s) {
		if slot >= 0 && slot < len(n.Args) {
			do(n, n.Args[slot])
		}
	}
	if c, ok := st.C.(CPruner); ok {
		fl.now = st
		c.Reenter(st, gone, phis)
	}
	if inLoop != nil {
		for k, v := range st.phi {
			if gone(k) || gone(v) {
				if gone(v) && !gone(k) {
					// a join outside the loop cannot stand for a value of the loop before it is left
				}
				delete(st.phi, k)
			}
		}
		for k := range st.av {
			if gone(k) || fl.dependsOn(k, gone) {
				delete(st.av, k)
			}
		}
		for k := range st.fact {
			if gone(k.a) || k.b != nil && gone(k.b) {
				delete(st.fact, k)
			}
		}
	} else {
		for _, u := range us {
			delete(st.phi, u.phi)
			delete(st.av, u.phi)
			for k := range st.fact {
				if k.a == u.phi || k.b == u.phi {
					delete(st.fact, k)
				}
			}
		}
	}
	for _, u := range us {
		if u.val != nil {
			st.phi[u.phi] = u.val
		} else {
			if u.hasAV {
				st.av[u.phi] = u.av
			}
			if u.nilf != 0 {
				nl := fl.IR.zero(u.phi.Typ)
				st.fact[eqKey(u.phi, nl)] = u.nilf < 0
			}
		}
	}
	// prune what cannot matter any more
	live := fl.live[s]
	if fl.Track != nil {
		for k := range st.phi {
			if !fl.Track(k) {
				delete(st.phi, k)
			}
		}
		for k := range st.av {
			if !fl.Track(k) {
				delete(st.av, k)
			}
		}
		for k := range st.fact {
			if !fl.Track(k.a) && k.a.Op != OConst || k.b != nil && !fl.Track(k.b) && k.b.Op != OConst {
				delete(st.fact, k)
			}
		}
	}
	extra := map[*Node]bool{}
	for k, v := range st.phi {
		if !live[k] {
			delete(st.phi, k)
			continue
		}
		fl.keep1(extra, v)
	}
	keep := func(n *Node) bool { return n == nil || n.Op == OConst || live[n] || extra[n] }
	for k := range st.av {
		if !keep(k) {
			delete(st.av, k)
		}
	}
	for k := range st.fact {
		if !keep(k.a) || !keep(k.b) {
			delete(st.fact, k)
		}
	}
	if c, ok := st.C.(CPruner); ok {
		c.Prune(keep)
	}
}

func (fl *Flow) dependsOn(n *Node, gone func(*Node) bool) bool { return false }

func intWide(t types.Type) bool {
	bits, _, ok := kindBits(t)
	return ok && bits > 8
}
