package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: numbers in text are stored at full width.

func init() {
	register("C24", (*Check).textNumbers)
}

type numFlow struct {
	p     *Program
	r     *Result
	reach map[*ssa.Function]bool
	rets  map[*ssa.Function][]*ssa.Call // calls of a function in the reach
}

// numSource: a call that turns text into a number.
func numSource(c *ssa.Call) string {
	g := c.Call.StaticCallee()
	if g == nil || g.Object() == nil || g.Object().Pkg() == nil || g.Signature.Recv() != nil {
		return ""
	}
	switch pk, n := g.Object().Pkg().Path(), g.Name(); {
	case pk == "strconv" && (n == "ParseInt" || n == "ParseUint" || n == "ParseFloat" || n == "Atoi"):
		return n
	case strings.HasSuffix(pk, "/DxCommonLib") && (n == "ParseFloat" || n == "ParseInt64" || n == "StrToIntDef" || n == "StrToUintDef" || n == "StrToFloatDef"):
		return n
	}
	return ""
}

// payloadAddr: the address is that of a value's payload, seen as a number.
func payloadAddr(a ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := a.(type) {
		case *ssa.Convert:
			a = x.X
		case *ssa.ChangeType:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.FieldAddr:
			s := structOf(deref(x.X.Type()))
			return s != nil && tname(deref(x.X.Type())) == "DxValue" && s.Field(x.Field).Name() == "simpleV"
		default:
			return false
		}
	}
	return false
}

type numVal struct {
	v   ssa.Value
	bad ssa.Instruction
}

// follow traces a parsed number forward; sink is called for every store of it in a value's payload.
func (nf *numFlow) follow(v0 ssa.Value, full bool, sink func(st *ssa.Store, bad ssa.Instruction)) {
	seen := map[numVal]bool{}
	var work []numVal
	add := func(v ssa.Value, bad ssa.Instruction) {
		k := numVal{v, bad}
		if v != nil && !seen[k] {
			seen[k] = true
			work = append(work, k)
		}
	}
	add(v0, nil)
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if k.v.Referrers() == nil {
			continue
		}
		for _, u := range *k.v.Referrers() {
			switch u := u.(type) {
			case *ssa.Convert:
				bad := k.bad
				if bad == nil && narrows(u.X.Type(), u.Type()) {
					bad = u
				}
				add(u, bad)
			case *ssa.ChangeType:
				add(u, k.bad)
			case *ssa.Phi:
				add(u, k.bad)
			case *ssa.UnOp:
				if u.Op == token.SUB {
					add(u, k.bad)
				}
			case *ssa.BinOp:
				switch u.Op {
				case token.ADD, token.SUB, token.MUL, token.QUO:
					add(u, k.bad)
				case token.REM, token.SHR, token.AND:
					bad := k.bad
					if bad == nil && u.X == k.v {
						bad = u
					}
					add(u, bad)
				}
			case *ssa.Return:
				f := u.Parent()
				for i, q := range u.Results {
					if q != k.v {
						continue
					}
					for _, c := range nf.p.callers[f] {
						if !nf.reach[c.Parent()] {
							continue
						}
						if len(u.Results) == 1 {
							add(c, k.bad)
							continue
						}
						for _, e := range *c.Referrers() {
							if x, ok := e.(*ssa.Extract); ok && x.Index == i {
								add(x, k.bad)
							}
						}
					}
				}
			case *ssa.Call:
				g := u.Call.StaticCallee()
				if g != nil && nf.p.internal(g) && nf.reach[g] {
					for i, a := range u.Call.Args {
						if a == k.v && i < len(g.Params) {
							add(g.Params[i], k.bad)
						}
					}
					continue
				}
				if g != nil && g.Object() != nil && g.Object().Pkg() != nil && g.Object().Pkg().Path() == "math" && u.Call.Signature().Results().Len() == 1 {
					bad := k.bad
					if bad == nil {
						switch g.Name() {
						case "Trunc", "Floor", "Ceil", "Round", "RoundToEven":
							bad = u
						}
					}
					add(u, bad)
				}
			case *ssa.Store:
				if u.Val != k.v {
					continue
				}
				if payloadAddr(u.Addr) {
					sink(u, k.bad)
					continue
				}
				if al, ok := u.Addr.(*ssa.Alloc); ok && al.Referrers() != nil {
					for _, l := range *al.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok && ld.Op == token.MUL {
							add(ld, k.bad)
						}
					}
				}
				if fa, ok := u.Addr.(*ssa.FieldAddr); ok {
					// a field of a local struct
					for f := range nf.reach {
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
									if fb, ok := ld.X.(*ssa.FieldAddr); ok && fb.Field == fa.Field && types.Identical(fb.X.Type(), fa.X.Type()) {
										add(ld, k.bad)
									}
								}
								if fl, ok := in.(*ssa.Field); ok && fl.Field == fa.Field && types.Identical(types.NewPointer(fl.X.Type()), fa.X.Type()) {
									add(fl, k.bad)
								}
							}
						}
					}
				}
			}
		}
	}
}

// narrows: the conversion can lose (a part of) a number.
func narrows(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || f.Info()&types.IsNumeric == 0 || t.Info()&types.IsNumeric == 0 {
		return false
	}
	fi, ti := f.Info()&types.IsInteger != 0, t.Info()&types.IsInteger != 0
	size := func(b *types.Basic) int {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.Float32:
			return 32
		}
		return 64
	}
	switch {
	case fi && ti:
		return size(t) < size(f)
	case fi && !ti:
		return size(f) > 32 && true
	case !fi && ti:
		return true
	}
	return size(t) < size(f)
}

func (c *Check) textNumbers() *Result {
	r := newResult()
	r.Min = 8
	r.Rules = []string{
		"every text-to-number call whose result reaches a value's payload parses at 64 bits, has its error tested before the result is used, and is no call that replaces unparsable text by a default",
		"between that call and the payload there is no conversion to a narrower type, no cut to the integer part and no conversion of a 64-bit integer to a floating-point number",
		"for JSON and for YAML there is a 64-bit integer parse that feeds integer payloads and a double parse that feeds double payloads; text that goes to the double parse without an integer attempt was tested for characters that no integer has",
		"the loop that finds the end of a number in JSON continues on every character a number consists of, and a number that ends with the document is parsed as well",
	}
	p := c.P
	payload := 0
	for _, fmtName := range []string{"json", "yaml"} {
		reach := p.reachable(p.entries(func(f *ssa.Function) bool {
			return isDecodeEntry(f) && strings.Contains(strings.ToLower(f.Name()), fmtName)
		}))
		nf := &numFlow{p: p, r: r, reach: reach}
		for f := range reach {
			r.Functions[fnName(f)] = true
		}
		intOK, fltOK := false, false
		sources := map[*ssa.Call]bool{}
		var calls []*ssa.Call
		for _, f := range p.Funcs {
			if !reach[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(*ssa.Call); ok && numSource(cl) != "" {
						calls = append(calls, cl)
					}
				}
			}
		}
		for _, cl := range calls {
			name := numSource(cl)
			var res, errv ssa.Value
			if cl.Call.Signature().Results().Len() == 1 {
				res = cl
			} else {
				for _, u := range *cl.Referrers() {
					if x, ok := u.(*ssa.Extract); ok {
						if x.Index == 0 {
							res = x
						} else {
							errv = x
						}
					}
				}
			}
			if res == nil {
				continue
			}
			type bs struct {
				st  *ssa.Store
				bad ssa.Instruction
			}
			var sinks []bs
			nf.follow(res, true, func(st *ssa.Store, bad ssa.Instruction) { sinks = append(sinks, bs{st, bad}) })
			if len(sinks) == 0 {
				continue
			}
			sources[cl] = true
			payload += len(sinks)
			where := fnName(cl.Parent())
			r.count("parse_calls")
			switch name {
			case "StrToIntDef", "StrToUintDef", "StrToFloatDef":
				r.bad(p, "number-width", cl.Pos(), where, "text that is no number is stored as a default by %s", name)
				continue
			case "ParseInt", "ParseUint", "ParseFloat":
				k, ok := cl.Call.Args[len(cl.Call.Args)-1].(*ssa.Const)
				if ok && k.Value != nil {
					if v, _ := constant.Int64Val(constant.ToInt(k.Value)); v != 64 && !(v == 0 && name != "ParseFloat") {
						r.bad(p, "number-width", cl.Pos(), where, "a number is parsed at %d bits only", v)
					}
				}
			}
			if at := untestedUse(res, errv); at != nil {
				r.bad(p, "number-error", cl.Pos(), where, "the result is used (%s) where the parse may have failed", p.pos(at.Pos()))
			}
			reported := map[ssa.Instruction]bool{}
			for _, s := range sinks {
				r.count("payload_flows")
				isInt := false
				if t, ok := s.st.Val.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
					isInt = true
				}
				if s.bad == nil {
					if isInt && (name == "ParseInt" || name == "Atoi" || name == "ParseInt64") {
						intOK = true
					}
					if !isInt {
						fltOK = true
					}
					continue
				}
				if !reported[s.bad] {
					reported[s.bad] = true
					r.bad(p, "number-narrowing", s.bad.Pos(), fnName(s.bad.Parent()), "the number parsed at %s loses width here before it is stored", p.pos(cl.Pos()))
				}
			}
		}
		if len(sources) == 0 {
			continue
		}
		r.count("formats")
		var first *ssa.Call
		for cl := range sources {
			if first == nil || cl.Pos() < first.Pos() {
				first = cl
			}
		}
		if !intOK {
			r.bad(p, "number-kinds", first.Pos(), fnName(first.Parent()), "no integer in %s text is stored as a 64-bit integer", fmtName)
		}
		if !fltOK {
			r.bad(p, "number-kinds", first.Pos(), fnName(first.Parent()), "no number in %s text is stored as a double", fmtName)
		}
		c.numberText(r, reach, sources, fmtName)
	}
	return r
}

// untestedUse: a use of a parse result that is not dominated by the outcome "no error" and does not travel with the error.
func untestedUse(res, errv ssa.Value) ssa.Instruction {
	if errv == nil {
		if res.Type() != nil {
			if cl, ok := res.(*ssa.Call); ok && cl.Call.Signature().Results().Len() == 1 {
				return nil
			}
		}
		if x, ok := res.(*ssa.Extract); ok {
			return x
		}
		return nil
	}
	// blocks entered only when there was no error
	var okBlocks []*ssa.BasicBlock
	for _, u := range *errv.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			continue
		}
		for _, v := range *b.Referrers() {
			if i, ok := v.(*ssa.If); ok {
				s := i.Block().Succs[0]
				if b.Op == token.NEQ {
					s = i.Block().Succs[1]
				}
				if len(s.Preds) == 1 {
					okBlocks = append(okBlocks, s)
				}
			} else if _, isDbg := v.(*ssa.DebugRef); !isDbg {
				return nil // the test is kept in a variable: not followed
			}
		}
	}
	fine := func(b *ssa.BasicBlock) bool {
		for _, o := range okBlocks {
			if o == b || o.Dominates(b) {
				return true
			}
		}
		return false
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) ssa.Instruction
	walk = func(v ssa.Value) ssa.Instruction {
		if seen[v] || v.Referrers() == nil {
			return nil
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Convert:
				if x := walk(u); x != nil {
					return x
				}
				continue
			case *ssa.BinOp, *ssa.UnOp, *ssa.If:
				continue
			case *ssa.Phi:
				okEdge := true
				for i, a := range u.Edges {
					if a == v && !fine(u.Block().Preds[i]) {
						okEdge = false
					}
				}
				if !okEdge {
					if x := walk(u); x != nil {
						return x
					}
				}
				continue
			case *ssa.Store:
				// kept in a variable of the function, which is judged where it is used
				a := u.Addr
				if fa, ok := a.(*ssa.FieldAddr); ok {
					a = fa.X
				}
				if _, ok := a.(*ssa.Alloc); ok {
					continue
				}
			case *ssa.Return:
				withErr := false
				for _, q := range u.Results {
					if isErrorType(q.Type()) {
						if k, isC := q.(*ssa.Const); !isC || !k.IsNil() {
							withErr = true
						}
					}
				}
				if withErr || fine(u.Block()) {
					continue
				}
				return u
			}
			if !fine(u.Block()) {
				return u
			}
		}
		return nil
	}
	return walk(res)
}

// numberText: the text handed to the number parsers is the whole number.
func (c *Check) numberText(r *Result, reach map[*ssa.Function]bool, sources map[*ssa.Call]bool, format string) {
	p := c.P
	numCall := map[*ssa.Function]bool{} // functions that (transitively) parse numbers
	for cl := range sources {
		numCall[cl.Parent()] = true
	}
	for ch := true; ch; {
		ch = false
		for f := range reach {
			if numCall[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(*ssa.Call); ok {
						if g := cl.Call.StaticCallee(); g != nil && numCall[g] && !numCall[f] {
							numCall[f] = true
							ch = true
						}
					}
				}
			}
		}
	}
	isNum := func(in ssa.Instruction) bool {
		cl, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		g := cl.Call.StaticCallee()
		return sources[cl] || g != nil && numCall[g]
	}
	// text that goes to the double parse: what was it tested for?
	for cl := range sources {
		if !strings.Contains(numSource(cl), "Float") {
			continue
		}
		for _, b := range cl.Parent().Blocks {
			for _, in := range b.Instrs {
				t, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := t.Call.StaticCallee()
				if g == nil || g.Object() == nil || g.Object().Pkg() == nil || len(t.Call.Args) != 2 {
					continue
				}
				pk := g.Object().Pkg().Path()
				if pk != "bytes" && pk != "strings" || g.Name() != "IndexAny" && g.Name() != "ContainsAny" && g.Name() != "LastIndexAny" {
					continue
				}
				k, ok := t.Call.Args[1].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				r.count("text_tests")
				if strings.ContainsAny(constant.StringVal(k.Value), "0123456789+-") {
					r.bad(p, "number-kinds", t.Pos(), fnName(cl.Parent()), "integers are taken for numbers with a fraction: the test looks for %q", constant.StringVal(k.Value))
				}
			}
		}
	}
	if format != "json" {
		return
	}
	// where the text comes from
	seen := map[ssa.Value]bool{}
	ends := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	var backEnd func(v ssa.Value)
	backEnd = func(v ssa.Value) {
		if ends[v] {
			return
		}
		ends[v] = true
		switch x := v.(type) {
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if g := cl.Call.StaticCallee(); g != nil && p.internal(g) {
					for _, b := range g.Blocks {
						if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(rt.Results) {
							backEnd(rt.Results[x.Index])
						}
					}
				}
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && p.internal(g) {
				for _, b := range g.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
						backEnd(rt.Results[0])
					}
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				backEnd(e)
			}
		}
	}
	back = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Convert:
			back(x.X)
		case *ssa.ChangeType:
			back(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e)
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				if p.internal(g) {
					for _, b := range g.Blocks {
						if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
							back(rt.Results[0])
						}
					}
				} else if strings.HasPrefix(g.Name(), "FastByte2") {
					back(x.Call.Args[0])
				}
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if g := cl.Call.StaticCallee(); g != nil && p.internal(g) {
					for _, b := range g.Blocks {
						if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(rt.Results) {
							back(rt.Results[x.Index])
						}
					}
				}
			}
		case *ssa.Parameter:
			f := x.Parent()
			for i, q := range f.Params {
				if q == x {
					for _, cl := range p.callers[f] {
						if reach[cl.Parent()] && i < len(cl.Call.Args) {
							back(cl.Call.Args[i])
						}
					}
				}
			}
		case *ssa.Slice:
			if x.High != nil {
				backEnd(x.High)
			} else {
				back(x.X)
			}
		}
	}
	for cl := range sources {
		back(cl.Call.Args[0])
	}
	done := map[*ssa.BasicBlock]bool{}
	var phis []*ssa.Phi
	for v := range ends {
		if ph, ok := v.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	sort.Slice(phis, func(i, j int) bool { return phis[i].Pos() < phis[j].Pos() })
	for _, ph := range phis {
		h := ph.Block()
		body := loopOf(h)
		if body == nil || done[h] {
			continue
		}
		done[h] = true
		// the byte the loop looks at: b[i]
		var loads []*ssa.UnOp
		for b := range body {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				if ia, ok := ld.X.(*ssa.IndexAddr); ok && indexIs(ia.Index, ph) && isByteType(ld.Type()) {
					loads = append(loads, ld)
				}
			}
		}
		if len(loads) == 0 {
			continue
		}
		sort.Slice(loads, func(i, j int) bool { return loads[i].Pos() < loads[j].Pos() })
		ld := loads[0]
		for _, l := range loads {
			if l.Block().Dominates(ld.Block()) {
				ld = l
			}
		}
		same := map[ssa.Value]bool{}
		for _, l := range loads {
			same[l] = true
		}
		r.count("number_scanners")
		for _, chr := range "0123456789.-+eE" {
			r.count("number_characters")
			ev := &byteEval{p: p, same: same, ch: int64(chr), ctr: ph, budget: 4000}
			if !ev.canReach(ld.Block(), ld, h, body) {
				r.bad(p, "number-extent", ld.Pos(), fnName(h.Parent()), "the number ends before a %q inside it", chr)
			}
		}
		// the end of the document
		hasNum := false
		for _, b := range h.Parent().Blocks {
			for _, in := range b.Instrs {
				if isNum(in) {
					hasNum = true
				}
			}
		}
		if !hasNum {
			continue
		}
		for b := range body {
			for _, s := range b.Succs {
				if body[s] || same[exitCond(b)] || dependsOnByte(exitCond(b), same, 0) {
					continue
				}
				if _, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If); !isIf || !lenTest(exitCond(b)) {
					continue
				}
				r.count("number_at_end")
				if rt := skipsNumber(s, isNum); rt != nil {
					r.bad(p, "number-extent", rt.Pos(), fnName(h.Parent()), "a number that ends with the document is not parsed on this path")
				}
			}
		}
	}
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

func indexIs(v ssa.Value, ph *ssa.Phi) bool {
	if v == ph {
		return true
	}
	// for i := range b: the counter is phi+1
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ph {
		return true
	}
	return false
}

func exitCond(b *ssa.BasicBlock) ssa.Value {
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		return i.Cond
	}
	return nil
}

func lenTest(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(x ssa.Value) bool {
		c, ok := x.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len"
	}
	return isLen(b.X) || isLen(b.Y)
}

func dependsOnByte(v ssa.Value, same map[ssa.Value]bool, d int) bool {
	if v == nil || d > 6 {
		return false
	}
	if same[v] {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if o != nil && *o != nil && dependsOnByte(*o, same, d+1) {
			return true
		}
	}
	return false
}

// skipsNumber: a return without an error that is reached from b without parsing a number.
func skipsNumber(b *ssa.BasicBlock, isNum func(ssa.Instruction) bool) *ssa.Return {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) *ssa.Return
	walk = func(b *ssa.BasicBlock) *ssa.Return {
		if seen[b] {
			return nil
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if isNum(in) {
				return nil
			}
			if rt, ok := in.(*ssa.Return); ok {
				for _, q := range rt.Results {
					if isErrorType(q.Type()) {
						if k, ok := q.(*ssa.Const); ok && k.IsNil() {
							return rt
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			if r := walk(s); r != nil {
				return r
			}
		}
		return nil
	}
	return walk(b)
}

// loopOf: the natural loop with head h.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, q := range h.Preds {
		if h.Dominates(q) {
			work = append(work, q)
		}
	}
	if len(work) == 0 {
		return nil
	}
	body[h] = true
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

// byteEval walks the paths of a loop body for one value of the byte it looks at. Conditions that do not depend on the
// byte alone are taken both ways.
type byteEval struct {
	p      *Program
	same   map[ssa.Value]bool
	ch     int64
	ctr    *ssa.Phi
	budget int
}

func (e *byteEval) canReach(from *ssa.BasicBlock, after ssa.Instruction, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	type env = map[ssa.Value]int64
	seen := map[string]bool{}
	var walk func(b, prev *ssa.BasicBlock, ev env) bool
	walk = func(b, prev *ssa.BasicBlock, ev env) bool {
		if b == h && prev != nil {
			return true
		}
		if !body[b] {
			return false
		}
		e.budget--
		if e.budget < 0 {
			return true
		}
		k := fmt.Sprint(b.Index, len(ev))
		if prev != nil {
			k += fmt.Sprint("<", prev.Index)
		}
		for v, x := range ev {
			_ = v
			k += fmt.Sprint(",", x)
		}
		if len(ev) == 0 {
			if seen[k] {
				return false
			}
			seen[k] = true
		}
		n := env{}
		for v, x := range ev {
			n[v] = x
		}
		if prev != nil {
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, q := range b.Preds {
					if q == prev {
						if x, ok := e.eval(ph.Edges[i], ev, 0); ok {
							n[ph] = x
						} else {
							delete(n, ph)
						}
					}
				}
			}
		}
		if cond := exitCond(b); cond != nil {
			if x, ok := e.eval(cond, n, 0); ok {
				if x != 0 {
					return walk(b.Succs[0], b, n)
				}
				return walk(b.Succs[1], b, n)
			}
		}
		for _, s := range b.Succs {
			if walk(s, b, n) {
				return true
			}
		}
		return false
	}
	return walk(from, nil, env{})
}

func (e *byteEval) eval(v ssa.Value, env map[ssa.Value]int64, d int) (int64, bool) {
	if d > 12 {
		return 0, false
	}
	if e.same[v] {
		return e.ch, true
	}
	if v == e.ctr {
		return 5, true // in the middle of the number
	}
	if x, ok := env[v]; ok {
		return x, true
	}
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return 0, false
		}
		switch x.Value.Kind() {
		case constant.Int:
			return constant.Int64Val(x.Value)
		case constant.Bool:
			return b2i(constant.BoolVal(x.Value)), true
		}
	case *ssa.Convert:
		if _, ok := x.Type().Underlying().(*types.Basic); ok {
			return e.eval(x.X, env, d+1)
		}
	case *ssa.ChangeType:
		return e.eval(x.X, env, d+1)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			a, ok := e.eval(x.X, env, d+1)
			return 1 - a, ok
		}
	case *ssa.BinOp:
		a, ok1 := e.eval(x.X, env, d+1)
		b, ok2 := e.eval(x.Y, env, d+1)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch x.Op {
		case token.EQL:
			return b2i(a == b), true
		case token.NEQ:
			return b2i(a != b), true
		case token.LSS:
			return b2i(a < b), true
		case token.LEQ:
			return b2i(a <= b), true
		case token.GTR:
			return b2i(a > b), true
		case token.GEQ:
			return b2i(a >= b), true
		case token.OR:
			return a | b, true
		case token.AND:
			return a & b, true
		case token.SUB:
			if isByteType(x.Type()) {
				return (a - b) & 255, true
			}
			return a - b, true
		case token.ADD:
			if isByteType(x.Type()) {
				return (a + b) & 255, true
			}
			return a + b, true
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return 0, false
		}
		if e.p.internal(g) {
			var args []int64
			for _, a := range x.Call.Args {
				y, ok := e.eval(a, env, d+1)
				if !ok {
					return 0, false
				}
				args = append(args, y)
			}
			return e.call(g, args, d+1)
		}
		if g.Object() != nil && g.Object().Pkg() != nil && len(x.Call.Args) == 2 {
			pk := g.Object().Pkg().Path()
			k, ok := x.Call.Args[0].(*ssa.Const)
			if (pk == "strings") && ok && k.Value != nil && k.Value.Kind() == constant.String {
				c, ok := e.eval(x.Call.Args[1], env, d+1)
				if !ok {
					return 0, false
				}
				s := constant.StringVal(k.Value)
				switch g.Name() {
				case "IndexByte", "IndexRune":
					return int64(strings.IndexRune(s, rune(c))), true
				case "ContainsRune":
					return b2i(strings.ContainsRune(s, rune(c))), true
				}
			}
		}
	}
	return 0, false
}

// call evaluates a small pure function of numbers.
func (e *byteEval) call(g *ssa.Function, args []int64, d int) (int64, bool) {
	if d > 12 || len(g.Blocks) == 0 || len(args) != len(g.Params) {
		return 0, false
	}
	env := map[ssa.Value]int64{}
	for i, q := range g.Params {
		env[q] = args[i]
	}
	b, prev := g.Blocks[0], (*ssa.BasicBlock)(nil)
	for steps := 0; steps < 200; steps++ {
		if prev != nil {
			upd := map[ssa.Value]int64{}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, q := range b.Preds {
					if q == prev {
						x, ok := e.eval(ph.Edges[i], env, d+1)
						if !ok {
							return 0, false
						}
						upd[ph] = x
					}
				}
			}
			for k, v := range upd {
				env[k] = v
			}
		}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(t.Results) != 1 {
				return 0, false
			}
			return e.eval(t.Results[0], env, d+1)
		case *ssa.If:
			x, ok := e.eval(t.Cond, env, d+1)
			if !ok {
				return 0, false
			}
			prev = b
			if x != 0 {
				b = b.Succs[0]
			} else {
				b = b.Succs[1]
			}
		case *ssa.Jump:
			prev = b
			b = b.Succs[0]
		default:
			return 0, false
		}
	}
	return 0, false
}
