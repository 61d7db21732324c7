package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: bytes that belong to the caller are never written to.

func init() {
	register("C08", (*Check).callerBytes)
}

// byteOff is a position in a slice: lengths of slices, other terms and a constant, added up.
type byteOff struct {
	lens []*Node
	vars []*Node
	k    int64
	in   bool // somewhere behind that, but within what was handed over
}

func (o byteOff) plus(n *Node, res func(*Node) *Node, neg bool) byteOff {
	o.lens = append([]*Node{}, o.lens...)
	o.vars = append([]*Node{}, o.vars...)
	for i := 0; i < 12; i++ {
		n = res(n)
		switch {
		case (n.Op == OConvert || n.Op == OChangeType) && isIntType(n.Typ) && isIntType(n.Args[0].Typ):
			n = n.Args[0]
			continue
		case n.Op == OConst:
			if k, ok := constIntOf(n); ok {
				if neg {
					k = -k
				}
				o.k += k
			} else {
				o.vars = append(o.vars, n)
			}
			return o
		case neg:
			o.vars = append(o.vars, nil)
			return o
		case n.Op == OBuiltin && n.Name == "len":
			o.lens = append(o.lens, n.Args[0])
			return o
		case n.Op == OBin && n.Tok == token.ADD:
			o = o.plus(n.Args[0], res, false)
			n = n.Args[1]
			continue
		case n.Op == OBin && n.Tok == token.SUB:
			o = o.plus(n.Args[0], res, false)
			return o.plus(n.Args[1], res, true)
		}
		o.vars = append(o.vars, n)
		return o
	}
	o.vars = append(o.vars, n)
	return o
}

type ownRes struct {
	own   bool         // may be memory of its own
	field bool         // may be what a field refers to
	unk   bool         // may be anything
	grown map[int]int64 // may be parameter i, lengthened by at least so much
	part  map[int]bool  // may be a part of parameter i
}

type ownCheck struct {
	p      *Program
	r      *Result
	class  map[string]bool
	W      map[*ssa.Function]map[int]string // writes into parameter i, where
	forced map[*ssa.Function]bool
	rets   map[*ssa.Function]map[int]*ownRes
	busy   map[*ssa.Function]bool
	seen   map[string]bool
}

// appendLike: library functions that append to a slice they are given.
func appendLike(g *ssa.Function) (int, bool) {
	if g == nil || g.Object() == nil || g.Object().Pkg() == nil {
		return 0, false
	}
	n := g.Name()
	if strings.HasSuffix(g.Object().Pkg().Path(), "DxCommonLib") {
		sg := g.Signature
		if k := sg.Params().Len() - 1; sg.Recv() == nil && k > 0 && sg.Params().At(k).Name() == "dst" && isByteSlice(sg.Params().At(k).Type()) && sg.Results().Len() == 1 && isByteSlice(sg.Results().At(0).Type()) {
			return k, true
		}
		return 0, false
	}
	if !strings.HasPrefix(n, "Append") {
		return 0, false
	}
	for i, q := range g.Params {
		if isByteSlice(q.Type()) && g.Signature.Results().Len() > 0 && isByteSlice(g.Signature.Results().At(0).Type()) {
			return i, true
		}
	}
	return 0, false
}

func (c *Check) callerBytes() *Result {
	r := newResult()
	r.Min = 1
	r.Rules = []string{
		"every write into byte memory (assignment to an element, copy, append, library calls that fill a buffer) goes to memory made by the decoder or encoder itself, or behind the end that a buffer handed in by the caller had",
		"what a field refers to that a caller's buffer can be stored in (directly or by a shared decode) is only written to when it is known on the path to be freshly made",
	}
	r.Assumptions = []string{"library functions outside the list of writers do not write into their arguments", "a buffer is not handed in as input and as destination at once"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	oc := &ownCheck{p: p, r: r, class: map[string]bool{}, W: map[*ssa.Function]map[int]string{}, forced: map[*ssa.Function]bool{}, rets: map[*ssa.Function]map[int]*ownRes{}, busy: map[*ssa.Function]bool{}, seen: map[string]bool{}}
	// fields in which a caller's buffer may be stored
	t := newTaint(p)
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if p.internal(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	t.run(func() []taintKey {
		var ks []taintKey
		for _, f := range fs {
			if !isExported(f) {
				continue
			}
			k := taintKey{fn: f}
			for i, q := range f.Params {
				_, iface := q.Type().Underlying().(*types.Interface)
				if isByteSlice(q.Type()) || iface || isString(q.Type()) {
					k.args |= 1 << uint(i)
				}
			}
			if k.args != 0 {
				ks = append(ks, k)
			}
		}
		return ks
	})
	for k := range t.class {
		oc.class[k] = true
	}
	for round := 0; round < 6; round++ {
		before := fmt.Sprint(len(oc.W), len(oc.forced), oc.wsize())
		for _, f := range fs {
			oc.fn(f, false)
		}
		if fmt.Sprint(len(oc.W), len(oc.forced), oc.wsize()) == before {
			break
		}
	}
	for _, f := range fs {
		oc.fn(f, true)
	}
	if os.Getenv("DXDEBUG") != "" {
		for f, m := range oc.W {
			fmt.Println("W", fnName(f), m)
		}
		for f := range oc.forced {
			fmt.Println("forced", fnName(f))
		}
	}
	var cl []string
	for k := range oc.class {
		cl = append(cl, k)
	}
	sort.Strings(cl)
	r.sample("fields that may refer to a caller's memory: " + strings.Join(cl, ", "))
	return r
}

func (oc *ownCheck) wsize() int {
	n := 0
	for _, m := range oc.W {
		n += len(m)
	}
	return n
}

// concerns: whether a function writes to byte memory itself or by a callee that leaves the judgement to it.
func (oc *ownCheck) concerns(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isByteSlice(ia.X.Type()) {
					return true
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if (bi.Name() == "append" || bi.Name() == "copy") && isByteSlice(cc.Args[0].Type()) {
						return true
					}
				}
				if g := cc.StaticCallee(); g != nil {
					if oc.W[g] != nil || oc.forced[g] {
						return true
					}
					if !oc.p.internal(g) {
						if _, ok := externWrites(g); ok {
							return true
						}
						if _, ok := appendLike(g); ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// returnsOf: where the byte slices a function returns come from.
func (oc *ownCheck) returnsOf(f *ssa.Function) map[int]*ownRes {
	if m, ok := oc.rets[f]; ok {
		return m
	}
	if oc.busy[f] || len(f.Blocks) == 0 {
		return nil
	}
	oc.busy[f] = true
	defer delete(oc.busy, f)
	ir := oc.p.buildIR(f, func(*IR, *ssa.Function, int, []*ssa.Function) bool { return false })
	oc.p.alias()
	ir.promote()
	out := map[int]*ownRes{}
	w := &ownWalk{oc: oc, ir: ir, self: f, res: func(n *Node) *Node { return n.canon() }}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op != OReturn {
				continue
			}
			for i, a := range n.Args {
				if a.Typ == nil || !isByteSlice(a.Typ) {
					continue
				}
				o := out[i]
				if o == nil {
					o = &ownRes{grown: map[int]int64{}, part: map[int]bool{}}
					out[i] = o
				}
				w.origins(a, o, map[*Node]bool{})
			}
		}
	}
	oc.rets[f] = out
	return out
}

type ownWalk struct {
	oc   *ownCheck
	ir   *IR
	st   *FState
	self *ssa.Function
	res  func(*Node) *Node
}

// grows: whether slice x begins with all of slice y, and by how much it is longer at least.
func (w *ownWalk) grows(x, y *Node, seen map[*Node]bool) (int64, bool) {
	x = w.res(x)
	if x == y || x.canon() == y.canon() {
		return 0, true
	}
	if seen[x] {
		return 1 << 40, true
	}
	seen[x] = true
	defer delete(seen, x)
	switch x.Op {
	case OMakeSlice, OAlloc:
		return 1 << 40, true // memory of its own: whatever is written there
	case OConst:
		return 1 << 40, x.IsNil
	case OChangeType, OConvert:
		if isByteSlice(x.Args[0].Typ) {
			return w.grows(x.Args[0], y, seen)
		}
		return 1 << 40, true
	case OSlice:
		if !x.Lo && !x.Hi {
			return w.grows(x.Args[0], y, seen)
		}
		if rawNode(x.Args[0]).Op == OAlloc {
			return 1 << 40, true
		}
	case OPhi, OMemPhi:
		least := int64(1 << 40)
		for _, a := range x.Args {
			k, ok := w.grows(a, y, seen)
			if !ok {
				return 0, false
			}
			if k < least {
				least = k
			}
		}
		return least, true
	case OBuiltin:
		if x.Name == "append" {
			k, ok := w.grows(x.Args[0], y, seen)
			if ok && len(x.Args) > 1 {
				if z := w.res(x.Args[1]); z.Op == OSlice && !z.Lo && !z.Hi {
					if pt, ok := rawNode(z.Args[0]).Typ.Underlying().(*types.Pointer); ok {
						if at, ok := pt.Elem().Underlying().(*types.Array); ok {
							k += at.Len()
						}
					}
				}
			}
			return k, ok
		}
	case OCall:
		return w.callGrows(x, 0, y, seen)
	case OExtract:
		if c := w.res(x.Args[0]); c.Op == OCall {
			return w.callGrows(c, x.Field, y, seen)
		}
	}
	return 0, false
}

func (w *ownWalk) callGrows(c *Node, i int, y *Node, seen map[*Node]bool) (int64, bool) {
	if c.Callee == nil {
		return 0, false
	}
	if j, ok := appendLike(c.Callee); ok && !w.oc.p.internal(c.Callee) {
		return w.grows(c.Args[j], y, seen)
	}
	m := w.oc.returnsOf(c.Callee)
	if m == nil {
		if w.oc.busy[c.Callee] { // recursion: by induction, as its other returns say
			for j, q := range c.Callee.Params {
				if isByteSlice(q.Type()) && j < len(c.Args) {
					if k, ok := w.grows(c.Args[j], y, seen); ok {
						return k, true
					}
				}
			}
		}
		return 0, false
	}
	o := m[i]
	if o == nil || o.unk || o.field || len(o.part) > 0 {
		return 0, false
	}
	least := int64(1 << 40)
	for j, g := range o.grown {
		if j >= len(c.Args) {
			return 0, false
		}
		k, ok := w.grows(c.Args[j], y, seen)
		if !ok {
			return 0, false
		}
		if k+g < least {
			least = k + g
		}
	}
	return least, true
}

// origins collects where the memory of a byte slice may come from.
func (w *ownWalk) origins(n *Node, o *ownRes, seen map[*Node]bool) {
	n = w.res(n)
	if seen[n] {
		return
	}
	seen[n] = true
	switch n.Op {
	case OConst, OMakeSlice, OAlloc:
		o.own = true
	case OConvert:
		if isString(n.Args[0].Typ) {
			o.own = true
		} else {
			o.unk = true
		}
	case OChangeType:
		w.origins(n.Args[0], o, seen)
	case OParam:
		for i, q := range w.ir.Params {
			if q.canon() == n {
				if _, ok := o.grown[i]; !ok {
					o.grown[i] = 0
				}
			}
		}
	case OSlice:
		sub := &ownRes{grown: map[int]int64{}, part: map[int]bool{}}
		w.origins(n.Args[0], sub, seen)
		o.own = o.own || sub.own
		o.field = o.field || sub.field
		o.unk = o.unk || sub.unk
		for i, k := range sub.grown {
			if n.Lo || n.Hi {
				o.part[i] = true
			} else if h, ok := o.grown[i]; !ok || k < h {
				o.grown[i] = k
			}
		}
		for i := range sub.part {
			o.part[i] = true
		}
	case OPhi, OMemPhi:
		for _, a := range n.Args {
			w.origins(a, o, seen)
		}
	case OBuiltin:
		if n.Name == "append" {
			w.origins(n.Args[0], o, seen)
		} else {
			o.own = true
		}
	case OCall, OExtract:
		c, i := n, 0
		if n.Op == OExtract {
			c, i = w.res(n.Args[0]), n.Field
		}
		if c.Op != OCall || c.Callee == nil {
			o.unk = true
			return
		}
		if j, ok := appendLike(c.Callee); ok && !w.oc.p.internal(c.Callee) {
			w.origins(c.Args[j], o, seen)
			return
		}
		if c.Callee == w.self || w.oc.busy[c.Callee] {
			// recursion: what its arguments are
			for j, q := range c.Callee.Params {
				if isByteSlice(q.Type()) && j < len(c.Args) {
					w.origins(c.Args[j], o, seen)
				}
			}
			return
		}
		m := w.oc.returnsOf(c.Callee)
		if m == nil || m[i] == nil {
			o.unk = true
			return
		}
		s := m[i]
		o.own = o.own || s.own
		o.field = o.field || s.field
		o.unk = o.unk || s.unk
		for j := range s.grown {
			w.origins(c.Args[j], o, seen)
		}
		for j := range s.part {
			sub := &ownRes{grown: map[int]int64{}, part: map[int]bool{}}
			w.origins(c.Args[j], sub, seen)
			o.own, o.field, o.unk = o.own || sub.own, o.field || sub.field, o.unk || sub.unk
			for i := range sub.grown {
				o.part[i] = true
			}
			for i := range sub.part {
				o.part[i] = true
			}
		}
	case OLoad, OInit, OHavoc:
		o.field = true
	default:
		o.unk = true
	}
}

// behind: the position is not before the end of y. known: something is known about it at all.
func (w *ownWalk) behind(o byteOff, y *Node, seen map[*Node]bool) (ok, known bool) {
	for _, v := range o.vars {
		if v == nil {
			return false, false
		}
	}
	for _, x := range o.lens {
		if k, ok := w.grows(x, y, map[*Node]bool{}); ok {
			return k+o.k >= 0, true
		}
	}
	if o.in {
		return false, true
	}
	if len(o.vars) == 0 && len(o.lens) == 0 {
		if w.st != nil {
			// the length may be known to be no more
			for f := range w.st.fact {
				for _, q := range []*Node{f.a, f.b} {
					if q != nil && q.Op == OBuiltin && q.Name == "len" && w.res(q.Args[0]) == y && w.st.val(q).hi <= o.k {
						return true, true
					}
				}
			}
			if w.st.nilState(y) == 1 {
				return true, true
			}
		}
		return false, true
	}
	for _, v := range o.vars {
		v := w.res(v)
		if v.Op == OPhi {
			if seen[v] {
				return true, true
			}
			seen[v] = true
			all, kn := true, true
			for _, a := range v.Args {
				var z byteOff
				z.k = o.k
				b, k := w.behind(z.plus(a, func(n *Node) *Node { return n.canon() }, false), y, seen)
				all, kn = all && b, kn && (k || b)
			}
			delete(seen, v)
			if all {
				return true, true
			}
			return false, kn
		}
		if v.Op == OCall && v.Callee != nil && strings.Contains(v.Callee.Name(), "Index") {
			return false, true
		}
	}
	return false, false
}

func (oc *ownCheck) fn(f *ssa.Function, final bool) {
	if !oc.concerns(f) {
		return
	}
	p, r := oc.p, oc.r
	mid := inlineUpTo(150)
	ir := p.buildIR(f, func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if p.inCycle[g] || resetter(g) || maker(g) >= 0 {
			return false
		}
		if oc.forced[g] {
			return true
		}
		return mid(ir, g, depth, stack)
	})
	p.alias()
	ir.promote()
	type site struct {
		base, idx *Node // what is written to; at which index (nil: see end)
		end       bool  // behind its end
		what      string
	}
	sites := map[*Node]site{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			switch n.Op {
			case OStore:
				if a := n.Args[0].canon(); a.Op == OIndexAddr && isByteSlice(a.Args[0].Typ) {
					sites[n] = site{base: a.Args[0], idx: a.Args[1], what: "an element of it is assigned to"}
				}
			case OBuiltin:
				if n.Name == "copy" && isByteSlice(n.Args[0].Typ) {
					sites[n] = site{base: n.Args[0], what: "it is copied into"}
				}
				if n.Name == "append" && isByteSlice(n.Args[0].Typ) && len(n.Args) > 1 {
					sites[n] = site{base: n.Args[0], end: true, what: "append writes into what follows in it"}
				}
			case OCall:
				g := n.Callee
				if g == nil {
					break
				}
				if !p.internal(g) {
					if i, ok := externWrites(g); ok && i < len(n.Args) && isByteSlice(n.Args[i].Typ) {
						sites[n] = site{base: n.Args[i], what: g.Name() + " writes into it"}
					} else if i, ok := appendLike(g); ok && i < len(n.Args) {
						sites[n] = site{base: n.Args[i], end: true, what: g.Name() + " writes into what follows in it"}
					}
				}
			}
		}
	}
	wcalls := map[*Node]bool{}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Op == OCall && n.Callee != nil && oc.W[n.Callee] != nil {
				wcalls[n] = true
			}
		}
	}
	if len(sites)+len(wcalls) == 0 {
		return
	}
	r.Functions[fnName(f)] = true
	if final {
		for range sites {
			r.count("writes")
		}
		for range wcalls {
			r.count("calls_that_write")
		}
	}
	fl := &Flow{IR: ir, Max: 200, Limit: 100000, Init: noState{}}
	fl.prepare()
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if n.Typ != nil && isByteSlice(n.Typ) && n.Op != OConst || n.Op == OBuiltin && n.Name == "len" {
				fl.Keep(n, n.canon())
			}
		}
	}
	w := &ownWalk{oc: oc, ir: ir, self: f}
	// parameters that are appended to
	dest := map[*Node]bool{}
	sw := &ownWalk{oc: oc, ir: ir, self: f, res: func(n *Node) *Node { return n.canon() }}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			var bases []*Node
			switch {
			case n.Op == OBuiltin && n.Name == "append":
				bases = n.Args[:1]
			case n.Op == OCall && n.Callee != nil:
				if j, ok := appendLike(n.Callee); ok {
					bases = n.Args[j : j+1]
				} else if p.internal(n.Callee) {
					for _, o := range oc.returnsOf(n.Callee) {
						for j := range o.grown {
							if j < len(n.Args) {
								bases = append(bases, n.Args[j])
							}
						}
					}
				}
			}
			for _, x := range bases {
				if !isByteSlice(x.Typ) {
					continue
				}
				for _, q := range ir.Params {
					if isByteSlice(q.Typ) {
						if k, ok := sw.grows(x, q.canon(), map[*Node]bool{}); ok && k < 1<<39 {
							dest[q.canon()] = true
						}
					}
				}
			}
		}
	}
	fail := func(at *Node, msg string, a ...interface{}) {
		if !final || fl.unsure() {
			return
		}
		s := fmt.Sprintf(msg, a...)
		k := p.pos(at.Pos) + s
		if oc.seen[k] {
			return
		}
		oc.seen[k] = true
		fr := fnName(f)
		if at.Frame != nil {
			fr = at.Frame.chain(p)
		}
		r.bad(p, "caller-bytes", at.Pos, fr, "%s", s)
	}
	leave := func(root *Node) bool { // the callers judge
		if isExported(f) || p.inCycle[f] || len(p.callers[f]) == 0 {
			return false
		}
		for _, q := range ir.Params {
			if q.canon() == root {
				if !oc.forced[f] && !fl.unsure() {
					oc.forced[f] = true
				}
				return true
			}
		}
		return false
	}
	var judge func(st *FState, at, base *Node, off byteOff, what string, capped bool, seen map[*Node]bool, d int)
	judge = func(st *FState, at, base *Node, off byteOff, what string, capped bool, seen map[*Node]bool, d int) {
		base = st.res(base)
		if seen[base] || d > 30 || st.nilState(base) == 1 {
			return
		}
		seen[base] = true
		switch base.Op {
		case OParam:
			if !isByteSlice(base.Typ) {
				return
			}
			ok, known := w.behind(off, base, map[*Node]bool{})
			if os.Getenv("DXDEBUG") == "2" {
				fmt.Println("param", fnName(f), p.pos(at.Pos), base.Name, off, ok, known)
			}
			if ok || !known && dest[base] || fl.unsure() {
				return
			}
			for i, q := range ir.Params {
				if q.canon() != base {
					continue
				}
				if isExported(f) {
					fail(at, "%s: this may be the caller's buffer (%s), and not behind its end", what, base.Name)
				} else {
					if oc.W[f] == nil {
						oc.W[f] = map[int]string{}
					}
					if oc.W[f][i] == "" {
						oc.W[f][i] = p.pos(at.Pos)
					}
				}
			}
		case OSlice:
			if base.Max && capped {
				return // append makes a copy
			}
			if _, ok := base.Args[0].Typ.Underlying().(*types.Pointer); ok {
				return
			}
			if base.Lo {
				off = off.plus(base.Args[1], st.res, false)
			}
			judge(st, at, base.Args[0], off, what, false, seen, d+1)
		case OChangeType:
			judge(st, at, base.Args[0], off, what, capped, seen, d+1)
		case OPhi, OMemPhi:
			for _, a := range base.Args {
				judge(st, at, a, off, what, capped, seen, d+1)
			}
		case OBuiltin:
			if base.Name == "append" {
				judge(st, at, base.Args[0], off, what, false, seen, d+1)
			}
		case OCall, OExtract:
			cl, i := base, 0
			if base.Op == OExtract {
				cl, i = st.res(base.Args[0]), base.Field
			}
			if cl.Op != OCall || cl.Callee == nil {
				return
			}
			if !p.internal(cl.Callee) {
				if j, ok := appendLike(cl.Callee); ok {
					judge(st, at, cl.Args[j], off, what, false, seen, d+1)
				} else if strings.HasSuffix(extFnName(cl.Callee), "FastString2Byte") {
					fail(at, "%s: this is the memory of a string", what)
				} else if o := cl.Callee.Object(); o != nil && o.Pkg() != nil && o.Pkg().Path() == "bytes" {
					switch {
					case strings.HasPrefix(o.Name(), "Trim"), strings.HasPrefix(o.Name(), "Cut"):
						z := off
						z.in = true
						judge(st, at, cl.Args[0], z, what, false, seen, d+1)
					}
				}
				return
			}
			m := oc.returnsOf(cl.Callee)
			if m == nil || m[i] == nil {
				return
			}
			for j := range m[i].grown {
				judge(st, at, cl.Args[j], off, what, false, seen, d+1)
			}
			for j := range m[i].part {
				o := off
				o.in = true
				judge(st, at, cl.Args[j], o, what, false, seen, d+1)
			}
			if m[i].field && !m[i].own {
				fail(at, "%s: this may be a buffer of the caller's that %s returns", what, fnName(cl.Callee))
			}
		case OLoad, OInit, OHavoc:
			var l Loc
			if base.Op == OLoad {
				l = ir.loc(base.Args[0])
			} else if base.MemLoc != nil {
				l = *base.MemLoc
			}
			if l.Root == nil || !oc.class[l.Class] || !strings.Contains(l.Class, ".") {
				return
			}
			root := st.res(l.Root)
			if st.immutable(root) {
				return
			}
			switch root.Op {
			case OAlloc:
				return
			case OCall:
				if g := root.Callee; g != nil && isValuePtr(root.Typ) {
					fresh := true
					for _, q := range g.Params {
						if isByteSlice(q.Type()) || isString(q.Type()) || isIntType(q.Type()) && tname(q.Type()) != "ValueType" || isValuePtr(q.Type()) {
							fresh = false
						}
						if tname(q.Type()) == "ValueType" {
							fresh = true
							break
						}
					}
					if fresh {
						return
					}
				}
			}
			if base.Op == OHavoc && base.Blk != nil {
				for _, n := range base.Blk.Nodes {
					if n.Idx == base.Idx && n.Op == OCall && n.Callee != nil && resetter(n.Callee) && st.res(n.Args[0]) == root {
						return
					}
				}
			}
			if leave(root) {
				return
			}
			fail(at, "%s: %s may refer to a buffer that the caller supplied", what, l.Class)
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		s, ok := sites[n]
		w.st, w.res = st, st.res
		if ok {
			var off byteOff
			switch {
			case s.end:
				// the end of the slice
				x := st.res(s.base)
				capped := false
				for x.Op == OSlice {
					if _, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
						return true
					}
					if x.Max {
						capped = true
						break
					}
					if x.Hi {
						break
					}
					x = st.res(x.Args[0])
				}
				if capped {
					return true
				}
				base := x
				if x.Op == OSlice {
					i := 1
					if x.Lo {
						i = 2
					}
					off = off.plus(x.Args[i], st.res, false)
					base = x.Args[0]
				} else {
					off.lens = []*Node{x}
				}
				judge(st, n, base, off, s.what, true, map[*Node]bool{}, 0)
			default:
				if s.idx != nil {
					off = off.plus(s.idx, st.res, false)
				}
				judge(st, n, s.base, off, s.what, false, map[*Node]bool{}, 0)
			}
		}
		if wcalls[n] {
			for i, where := range oc.W[n.Callee] {
				if i < len(n.Args) {
					judge(st, n, n.Args[i], byteOff{}, fnName(n.Callee)+" writes into it ("+where+")", false, map[*Node]bool{}, 0)
				}
			}
		}
		return true
	}
	fl.run()
	if fl.Too && final {
		r.Counts["too_large"]++
	}
}

type noState struct{}

func (noState) Key() string   { return "" }
func (noState) Clone() CState { return noState{} }
