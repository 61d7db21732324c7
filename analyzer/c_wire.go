package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Wire terms: where the bits of an integer and the bytes of a slice come from, on a path. An integer is 64 bits, each 0,
// 1, or bit k of a source (a byte of the input, or a value that is not looked into); a slice is a base with offset and length,
// which are sums of a constant and such integers.

type bitv [64]string

func (b bitv) String() string {
	// runs of consecutive bits of one source
	var out []string
	for i := 0; i < 64; {
		s, k, ok := splitBit(b[i])
		if !ok {
			j := i
			for j < 64 && b[j] == b[i] {
				j++
			}
			out = append(out, fmt.Sprintf("%s*%d", b[i], j-i))
			i = j
			continue
		}
		j := i + 1
		for j < 64 {
			s2, k2, ok2 := splitBit(b[j])
			if !ok2 || s2 != s || k2 != k+j-i {
				break
			}
			j++
		}
		out = append(out, fmt.Sprintf("%s[%d:%d]", s, k, k+j-i))
		i = j
	}
	return strings.Join(out, " ")
}

func splitBit(s string) (string, int, bool) {
	i := strings.LastIndexByte(s, ':')
	if i < 0 {
		return "", 0, false
	}
	k, err := strconv.Atoi(s[i+1:])
	return s[:i], k, err == nil
}

// mixBits: a bit that depends on two.
func mixBits(x, op, y string) string {
	if x > y {
		x, y = y, x
	}
	return "(" + x + " " + op + " " + y + ")"
}

func srcBits(src string, w int, signed bool) bitv {
	var b bitv
	for i := range b {
		switch {
		case i < w:
			b[i] = fmt.Sprintf("%s:%d", src, i)
		case signed && w > 0:
			b[i] = fmt.Sprintf("%s:%d", src, w-1)
		default:
			b[i] = "0"
		}
	}
	return b
}

func constBits(v int64) bitv {
	var b bitv
	for i := range b {
		b[i] = "0"
		if v>>uint(i)&1 != 0 {
			b[i] = "1"
		}
	}
	return b
}

func (b bitv) constant() (int64, bool) {
	var v int64
	for i := range b {
		switch b[i] {
		case "1":
			v |= 1 << uint(i)
		case "0":
		default:
			return 0, false
		}
	}
	return v, true
}

func (b bitv) fit(w int, signed bool) bitv {
	if w <= 0 || w > 64 {
		return b
	}
	for i := w; i < 64; i++ {
		b[i] = "0"
		if signed {
			b[i] = b[w-1]
		}
	}
	return b
}

// byteBits: w bits built from bytes of a source that is counted in bytes from off, big or little endian.
func byteBits(src func(k int64) string, off int64, w int, little, signed bool) bitv {
	var b bitv
	n := w / 8
	for k := 0; k < n; k++ {
		at := n - 1 - k
		if little {
			at = k
		}
		for j := 0; j < 8; j++ {
			b[k*8+j] = fmt.Sprintf("%s:%d", src(off+int64(at)), j)
		}
	}
	return b.fit(w, signed)
}

// lin is a sum of a constant and terms.
type lin2 struct {
	c int64
	t map[string]int64
}

func linConst(c int64) lin2 { return lin2{c: c} }

func (a lin2) add(b lin2, k int64) lin2 {
	r := lin2{c: a.c + k*b.c, t: map[string]int64{}}
	for x, v := range a.t {
		r.t[x] = v
	}
	for x, v := range b.t {
		if r.t[x] += k * v; r.t[x] == 0 {
			delete(r.t, x)
		}
	}
	return r
}

func linTerm(s string) lin2 { return lin2{t: map[string]int64{s: 1}} }

func (a lin2) isConst() bool { return len(a.t) == 0 }

func (a lin2) String() string {
	var ks []string
	for k := range a.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	if a.c != 0 || len(ks) == 0 {
		out = append(out, fmt.Sprint(a.c))
	}
	for _, k := range ks {
		if a.t[k] == 1 {
			out = append(out, k)
		} else {
			out = append(out, fmt.Sprintf("%d*%s", a.t[k], k))
		}
	}
	return strings.Join(out, " + ")
}

func (a lin2) eq(b lin2) bool { return a.String() == b.String() }

// sliceTerm is a piece of memory, or a text with its content.
type sliceTerm struct {
	base string
	off  lin2
	n    lin2
	hasN bool
}

func (s sliceTerm) String() string {
	if s.base == "empty" {
		return "empty"
	}
	if !s.hasN {
		return fmt.Sprintf("%s from %s", s.base, s.off)
	}
	return fmt.Sprintf("%s from %s, %s bytes", s.base, s.off, s.n)
}

type wire struct {
	ir   *IR
	st   *FState
	name func(n *Node) string          // name of a base or source that is to be called by another name than its number
	at   func(n *Node) (sliceTerm, bool) // what a slice is, if the rule knows better
	num  func(n *Node) (bitv, bool)
}

func (w *wire) id(n *Node) string {
	if w.name != nil {
		if s := w.name(n); s != "" {
			return s
		}
	}
	return fmt.Sprintf("?n%d", n.ID)
}

// known: everything in the term comes from what the rule named.
func known(s string) bool { return !strings.Contains(s, "?") }

// endianCall: the byte order and width of a call of encoding/binary's fixed width accessors.
func endianCall(g *ssa.Function) (op string, width int, little, ok bool) {
	if g == nil {
		return
	}
	s := g.String()
	if !strings.HasPrefix(s, "(encoding/binary.") {
		return
	}
	little = strings.Contains(s, "littleEndian")
	if !little && !strings.Contains(s, "bigEndian") {
		return
	}
	nm := g.Name()
	for _, pre := range []string{"PutUint", "AppendUint", "Uint"} {
		if strings.HasPrefix(nm, pre) {
			v, err := strconv.Atoi(nm[len(pre):])
			return pre, v, little, err == nil
		}
	}
	return
}

func isExtFn(n *Node, names ...string) bool {
	if n.Op != OCall || n.Callee == nil {
		return false
	}
	s := n.Callee.String()
	for _, x := range names {
		if s == x || strings.HasSuffix(s, "/"+x) {
			return true
		}
	}
	return false
}

// reinterpreted: the value that is read again as another type (*(*T)(unsafe.Pointer(&x))).
func (w *wire) reinterpreted(n *Node) *Node {
	if n.MemLoc == nil || n.MemLoc.Root == nil {
		return nil
	}
	l := *n.MemLoc
	if !strings.Contains(l.Path, "#") || l.Root.canon().Op != OAlloc {
		return nil
	}
	at := strings.IndexByte(l.Path, '#')
	if n.Op == OHavoc && n.Blk != nil && n.Idx >= 0 && n.Idx < len(n.Blk.Nodes) {
		if d := n.Blk.Nodes[n.Idx]; d.Op == OStore {
			sl := w.ir.loc(d.Args[0])
			if sl.Root.canon() == l.Root.canon() && sl.Path == l.Path[:at] {
				return d.Args[1]
			}
		}
	}
	return nil
}

func (w *wire) bits(n *Node) (bitv, bool) { return w.bits0(n, 0) }

func (w *wire) bits0(n *Node, d int) (bitv, bool) {
	n = w.st.res(n)
	if n.Typ == nil {
		return bitv{}, false
	}
	bw, uns, isInt := intBits(n.Typ)
	if isFloatType(n.Typ) {
		bw, uns = 64, true
		if tname(n.Typ.Underlying()) == "float32" {
			bw = 32
		}
	} else if !isInt {
		return bitv{}, false
	}
	if n.Op == OConst && n.Const != nil && isInt {
		if v, ok := constant.Int64Val(constant.ToInt(n.Const)); ok {
			return constBits(v).fit(bw, !uns), true
		}
		if v, ok := constant.Uint64Val(constant.ToInt(n.Const)); ok {
			return constBits(int64(v)).fit(bw, !uns), true
		}
		return bitv{}, false
	}
	if isInt {
		if v, ok := w.st.val(n).exact(); ok && v != inf && v != -1<<63 {
			return constBits(v).fit(bw, !uns), true
		}
	}
	if d > 40 {
		return bitv{}, false
	}
	if w.num != nil {
		if b, ok := w.num(n); ok {
			return b, true
		}
	}
	leaf := func() (bitv, bool) {
		b := srcBits(w.id(n), bw, !uns)
		if isInt {
			v := w.st.val(n)
			if v.lo >= 0 {
				for i := 0; i < 63; i++ {
					if v.hi < 1<<uint(i) {
						for j := i; j < 64; j++ {
							b[j] = "0"
						}
						break
					}
				}
				if v.hi != inf || !uns {
					b[63] = "0"
				}
			}
		}
		return b, true
	}
	switch n.Op {
	case OLoad, OInit, OHavoc, OIndex:
		var l Loc
		if n.Op == OIndex {
			if t, ok := w.slice(n.Args[0]); ok {
				o := t.off.add(w.lin(n.Args[1]), 1)
				return srcBits(t.base+"+"+o.String(), bw, !uns), true
			}
			return leaf()
		}
		if n.Op == OLoad {
			l = w.ir.loc(n.Args[0])
		} else if n.MemLoc != nil {
			l = *n.MemLoc
		} else {
			return leaf()
		}
		if bw == 8 && isInt {
			if t, ok := w.byteAt(n); ok {
				return srcBits(t, 8, !uns), true
			}
		}
		if n.Op == OLoad && l.Root != nil && l.Root.Op == OAlloc && !strings.Contains(l.Path, "#") {
			break
		}
		if x := w.reinterpreted(n); x != nil {
			if b, ok := w.bits0(x, d+1); ok {
				return b.fit(bw, !uns), true
			}
		}
	case OConvert:
		a := w.st.res(n.Args[0])
		if _, _, ok := intBits(a.Typ); ok && isInt {
			if b, ok := w.bits0(a, d+1); ok {
				return b.fit(bw, !uns), true
			}
		}
	case OUn:
		if n.Tok == token.XOR {
			if b, ok := w.bits0(n.Args[0], d+1); ok {
				if v, ok := b.constant(); ok {
					return constBits(^v).fit(bw, !uns), true
				}
			}
		}
	case OCall:
		if op, wd, little, ok := endianCall(n.Callee); ok && op == "Uint" {
			if t, ok := w.slice(n.Args[len(n.Args)-1]); ok {
				return byteBits(func(k int64) string { return t.base + "+" + t.off.add(linConst(k), 1).String() }, 0, wd, little, false), true
			}
		}
		if isExtFn(n, "math.Float32frombits", "math.Float64frombits", "math.Float32bits", "math.Float64bits") {
			return w.bits0(n.Args[0], d+1)
		}
	case OBin:
		switch n.Tok {
		case token.AND, token.OR, token.XOR, token.ADD, token.AND_NOT:
			a, ok1 := w.bits0(n.Args[0], d+1)
			b, ok2 := w.bits0(n.Args[1], d+1)
			if !ok1 || !ok2 {
				return leaf()
			}
			var r bitv
			for i := range r {
				x, y := a[i], b[i]
				if n.Tok == token.AND_NOT {
					switch y {
					case "0":
						y = "1"
					case "1":
						y = "0"
					default:
						return leaf()
					}
				}
				switch n.Tok {
				case token.AND, token.AND_NOT:
					switch {
					case x == "0" || y == "0":
						r[i] = "0"
					case x == "1":
						r[i] = y
					case y == "1" || x == y:
						r[i] = x
					default:
						r[i] = mixBits(x, "&", y)
					}
				default:
					switch {
					case x == "0":
						r[i] = y
					case y == "0":
						r[i] = x
					case n.Tok == token.OR && (x == y || x == "1" || y == "1"):
						r[i] = "1"
						if x == y {
							r[i] = x
						}
					case n.Tok == token.OR && len(x)+len(y) < 200:
						r[i] = mixBits(x, "|", y)
					default:
						return leaf()
					}
				}
			}
			return r.fit(bw, !uns), true
		case token.SHL, token.SHR, token.MUL, token.QUO:
			k, ok := w.st.val(n.Args[1]).exact()
			if !ok || k < 0 {
				return leaf()
			}
			left := n.Tok == token.SHL
			if n.Tok == token.MUL || n.Tok == token.QUO {
				left = n.Tok == token.MUL
				if k <= 0 || k&(k-1) != 0 || !left && !uns && w.st.val(n.Args[0]).lo < 0 {
					return leaf()
				}
				e := int64(0)
				for k>>uint(e) > 1 {
					e++
				}
				k = e
			}
			a, ok := w.bits0(n.Args[0], d+1)
			if !ok {
				return leaf()
			}
			var r bitv
			for i := range r {
				j := int64(i) + k
				if left {
					j = int64(i) - k
				}
				switch {
				case j >= 0 && j < 64:
					r[i] = a[j]
				case j < 0:
					r[i] = "0"
				default:
					r[i] = "0"
					if !uns {
						r[i] = a[63]
					}
				}
			}
			return r.fit(bw, !uns), true
		}
	}
	return leaf()
}

// byteAt names the byte of a slice that n was read from.
func (w *wire) byteAt(n *Node) (string, bool) {
	b, o, ok := w.bytePos(n)
	if !ok {
		return "", false
	}
	return b + "+" + o.String(), true
}

func (w *wire) bytePos(n *Node) (string, lin2, bool) {
	var x, ix *Node
	if n.Op == OLoad {
		a := w.st.res(n.Args[0])
		if a.Op != OIndexAddr {
			return "", lin2{}, false
		}
		x, ix = a.Args[0], a.Args[1]
	} else if n.Op == OIndex {
		x, ix = n.Args[0], n.Args[1]
	} else if n.MemLoc != nil && strings.HasPrefix(n.MemLoc.Path, "[") && strings.Count(n.MemLoc.Path, "[") == 1 && strings.HasSuffix(n.MemLoc.Path, "]") {
		x = n.MemLoc.Root
		s := n.MemLoc.Path[1 : len(n.MemLoc.Path)-1]
		if strings.HasPrefix(s, "n") {
			id, err := strconv.Atoi(s[1:])
			if err != nil {
				return "", lin2{}, false
			}
			ix = w.ir.byID(id)
		} else if k, err := strconv.ParseInt(s, 10, 64); err == nil {
			t, ok := w.slice(x)
			return t.base, t.off.add(linConst(k), 1), ok
		}
	}
	if x == nil || ix == nil || x.Typ == nil || !isByteSlice(x.Typ) && !isString(x.Typ) {
		return "", lin2{}, false
	}
	t, ok := w.slice(x)
	if !ok {
		return "", lin2{}, false
	}
	return t.base, t.off.add(w.lin(ix), 1), true
}

// lin: an integer as a sum.
func (w *wire) lin(n *Node) lin2 { return w.lin0(n, 0) }

func (w *wire) lin0(n *Node, d int) lin2 {
	n = w.st.res(n)
	if v, ok := w.st.val(n).exact(); ok && v != inf && v != -1<<63 {
		return linConst(v)
	}
	if d < 30 {
		switch n.Op {
		case OBin:
			if n.Tok == token.ADD || n.Tok == token.SUB {
				k := int64(1)
				if n.Tok == token.SUB {
					k = -1
				}
				return w.lin0(n.Args[0], d+1).add(w.lin0(n.Args[1], d+1), k)
			}
		case OConvert:
			a := w.st.res(n.Args[0])
			if isIntType(a.Typ) && isIntType(n.Typ) {
				if convExact(a.Typ, n.Typ) {
					return w.lin0(a, d+1)
				}
				// 64 bits as an int, and the like
				x, u1, _ := intBits(a.Typ)
				y, u2, _ := intBits(n.Typ)
				if x == y && u1 != u2 && a.Op != OBin {
					return w.lin0(a, d+1)
				}
			}
		case OBuiltin:
			if n.Name == "len" {
				if t, ok := w.slice(n.Args[0]); ok && t.hasN {
					return t.n
				}
				return linTerm("len(" + w.id(w.st.res(n.Args[0])) + ")")
			}
		}
	}
	if b, ok := w.bits(n); ok {
		if v, ok := b.constant(); ok {
			return linConst(v)
		}
		return linTerm(b.String())
	}
	return linTerm(w.id(n))
}

// slice: what a slice of bytes or a text is a piece of.
func (w *wire) slice(n *Node) (sliceTerm, bool) { return w.slice0(n, 0) }

func (w *wire) slice0(n *Node, d int) (sliceTerm, bool) {
	n = w.st.res(n)
	if d > 40 || n.Typ == nil {
		return sliceTerm{}, false
	}
	if w.at != nil {
		if t, ok := w.at(n); ok {
			return t, true
		}
	}
	switch n.Op {
	case OConst:
		if n.IsNil {
			return sliceTerm{base: "empty", n: linConst(0), hasN: true}, true
		}
		if n.Const != nil && n.Const.Kind() == constant.String {
			s := constant.StringVal(n.Const)
			if s == "" {
				return sliceTerm{base: "empty", n: linConst(0), hasN: true}, true
			}
			return sliceTerm{base: strconv.Quote(s), n: linConst(int64(len(s))), hasN: true}, true
		}
		return sliceTerm{}, false
	case OMakeSlice:
		if v, ok := w.st.val(n.Args[0]).exact(); ok && v == 0 {
			return sliceTerm{base: "empty", n: linConst(0), hasN: true}, true
		}
	case OSlice:
		x := w.st.res(n.Args[0])
		t, ok := w.slice0(x, d+1)
		if !ok {
			return t, false
		}
		i := 1
		lo := linConst(0)
		if n.Lo {
			lo = w.lin(n.Args[i])
			i++
		}
		r := sliceTerm{base: t.base, off: t.off.add(lo, 1)}
		if n.Hi {
			r.n, r.hasN = w.lin(n.Args[i]).add(lo, -1), true
		} else if t.hasN {
			r.n, r.hasN = t.n.add(lo, -1), true
		}
		if r.hasN && r.n.isConst() && r.n.c == 0 {
			return sliceTerm{base: "empty", n: linConst(0), hasN: true}, true
		}
		return r, true
	case OConvert:
		if isString(n.Args[0].Typ) && isByteSlice(n.Typ) || isByteSlice(n.Args[0].Typ) && isString(n.Typ) {
			return w.slice0(n.Args[0], d+1)
		}
	case OCall:
		if isExtFn(n, "DxCommonLib.FastByte2String", "DxCommonLib.FastString2Byte", "bytes.Clone", "strings.Clone") || n.Callee != nil && (n.Callee.Name() == "FastByte2String" || n.Callee.Name() == "FastString2Byte") {
			return w.slice0(n.Args[0], d+1)
		}
	case OBuiltin:
		if n.Name == "append" && len(n.Args) == 2 {
			a, ok := w.slice0(n.Args[0], d+1)
			b, ok2 := w.slice0(n.Args[1], d+1)
			if ok && a.hasN && a.n.isConst() && a.n.c == 0 && ok2 {
				return b, true
			}
		}
	}
	if isByteSlice(n.Typ) || isString(n.Typ) {
		return sliceTerm{base: w.id(n), n: linTerm("len(" + w.id(n) + ")"), hasN: true}, true
	}
	return sliceTerm{}, false
}

// constKind: the type of the shared constant a node is, if it is one.
func constKind(kinds map[string]int64, n *Node) (int64, bool) {
	if n.Op != OInit && n.Op != OHavoc && n.Op != OLoad {
		return 0, false
	}
	nm := n.Name
	if n.Op == OLoad {
		nm = "global " + n.Args[0].canon().Name
	}
	v, ok := kinds[strings.TrimPrefix(nm, "global ")]
	return v, ok && strings.HasPrefix(nm, "global ")
}
