package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: a failed step is always reported.

func init() {
	register("C06", (*Check).errorsReported)
}

// errStep: the error result index of a call, or -1. kind is "internal", "io" or "attempt".
func (p *Program) errStep(c *ssa.Call) (idx int, kind string) {
	sig := c.Call.Signature()
	rs := sig.Results()
	idx = -1
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			idx = i
		}
	}
	if idx < 0 {
		return -1, ""
	}
	g := c.Call.StaticCallee()
	if g != nil && p.internal(g) {
		return idx, "internal"
	}
	if g == nil {
		if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
			if f, ok := mc.Fn.(*ssa.Function); ok && p.internal(f) {
				return idx, "internal"
			}
		}
		if c.Call.IsInvoke() {
			switch c.Call.Method.Name() {
			case "Read", "Write", "WriteString", "ReadAt", "WriteAt", "Sync":
				return idx, "io"
			}
		}
		return -1, ""
	}
	if g.Object() == nil || g.Object().Pkg() == nil {
		return -1, ""
	}
	pk, n := g.Object().Pkg().Path(), g.Name()
	if n == "Close" || n == "Stat" {
		return -1, "" // a hint or a clean-up, not a step whose failure loses content
	}
	switch pk {
	case "errors", "fmt":
		if strings.HasPrefix(n, "Fprint") {
			return idx, "io"
		}
		return -1, ""
	case "os", "io", "bufio", "io/ioutil":
		return idx, "io"
	}
	return idx, "attempt"
}

type errWalk struct {
	p     *Program
	f     *ssa.Function
	call  *ssa.Call
	eidx  int
	kind  string
	e     ssa.Value // the error value, or nil when it is not even extracted
	seen  map[string]bool
	bad   string
	badAt token.Pos
	paths int
}

type errState struct {
	phi    map[ssa.Value]ssa.Value // phi or local cell -> current value
	isnil  map[ssa.Value]bool      // known nilness of error values
	tested bool
	again  bool // another step was attempted after the failure was seen
}

func (s *errState) clone() *errState {
	n := &errState{phi: map[ssa.Value]ssa.Value{}, isnil: map[ssa.Value]bool{}, tested: s.tested, again: s.again}
	for k, v := range s.phi {
		n.phi[k] = v
	}
	for k, v := range s.isnil {
		n.isnil[k] = v
	}
	return n
}

func (s *errState) key() string {
	var ks []string
	for k, v := range s.phi {
		ks = append(ks, k.Name()+"="+v.Name())
	}
	for k, v := range s.isnil {
		ks = append(ks, fmt.Sprintf("%s:%v", k.Name(), v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",") + fmt.Sprint(s.tested, s.again)
}

func (w *errWalk) resolve(v ssa.Value, st *errState) ssa.Value {
	for i := 0; i < 40; i++ {
		if n, ok := st.phi[v]; ok && n != v {
			v = n
			continue
		}
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if n, ok := st.phi[x]; ok {
					v = n
					continue
				}
			}
		}
		return v
	}
	return v
}

// nilness of an error value: 1 non-nil, -1 nil, 0 unknown
func (w *errWalk) nilness(v ssa.Value, st *errState) int {
	v = w.resolve(v, st)
	if w.e != nil && v == w.e {
		return 1
	}
	if b, ok := st.isnil[v]; ok {
		if b {
			return -1
		}
		return 1
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return -1
		}
		return 1
	case *ssa.MakeInterface:
		return 1
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			if g.Pkg == w.p.SSA && nonNilGlobals[g.Name()] || g.Pkg != w.p.SSA && isErrorType(deref(g.Type())) {
				return 1
			}
		}
	case *ssa.Call:
		if staticNonNil(x) {
			return 1
		}
	}
	return 0
}

func (w *errWalk) fail(at token.Pos, format string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
		w.badAt = at
	}
}

func (w *errWalk) run() {
	st := &errState{phi: map[ssa.Value]ssa.Value{}, isnil: map[ssa.Value]bool{}}
	b := w.call.Block()
	for i, in := range b.Instrs {
		if in == ssa.Instruction(w.call) {
			w.block(b, i+1, st)
			return
		}
	}
}

func errIdx(f *ssa.Function) int {
	rs := f.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErrorType(rs.At(i).Type()) {
			return i
		}
	}
	return -1
}

func (w *errWalk) block(b *ssa.BasicBlock, from int, st *errState) {
	if w.bad != "" || w.paths > 20000 {
		return
	}
	w.paths++
	for i := from; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Store:
			if isErrorType(deref(in.Addr.Type())) {
				st.phi[in.Addr] = w.resolve(in.Val, st)
			}
		case *ssa.UnOp:
			if in.Op == token.MUL && isErrorType(in.Type()) {
				if v, ok := st.phi[in.X]; ok {
					st.phi[in] = v
				} else {
					delete(st.phi, in)
				}
			}
		case *ssa.Call:
			if in == w.call {
				held := false
				for _, v := range st.phi {
					if v == w.e && w.e != nil {
						held = true
					}
				}
				if !held {
					if !(st.tested && w.kind == "attempt") {
						w.fail(in.Pos(), "the failure is forgotten: the step is simply repeated")
					}
					return
				}
				return
			}
			if _, k := w.p.errStep(in); k != "" && st.tested {
				st.again = true
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			k := errIdx(w.f)
			if k < 0 {
				if w.kind == "internal" || !st.tested && w.kind != "io" || !st.tested {
					w.fail(in.Pos(), "%s has no error result and goes on as if the step had succeeded", fnName(w.f))
				}
				return
			}
			switch w.nilness(in.Results[k], st) {
			case 1:
				return
			case -1:
				if w.kind == "attempt" && st.again {
					return
				}
				w.fail(in.Pos(), "success is returned although the step failed")
			default:
				if st.tested && st.again {
					return // the outcome of a later step, tried because this one failed, is reported
				}
				r := w.resolve(in.Results[k], st)
				w.fail(in.Pos(), "the returned error (%s) is not the one of the failed step", r.Name())
			}
			return
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	iff, isIf := last.(*ssa.If)
	for si, s := range b.Succs {
		ns := st.clone()
		if isIf {
			v, x, dec := w.cond(iff.Cond, ns)
			if dec {
				if v != (si == 0) {
					continue
				}
				ns.tested = true
			} else if x != nil {
				// an unrelated error value: remember its nilness on this side
				bo := iff.Cond.(*ssa.BinOp)
				eq := (bo.Op == token.EQL) == (si == 0)
				ns.isnil[x] = eq
			} else if w.eofTest(iff.Cond, ns, si == 0) {
				continue
			}
		}
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			ph := map[ssa.Value]ssa.Value{}
			for _, in := range s.Instrs {
				f, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isErrorType(f.Type()) {
					ph[f] = w.resolve(f.Edges[pi], ns)
				} else if bt, ok := f.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
					if c, ok := f.Edges[pi].(*ssa.Const); ok {
						ph[f] = c
					} else if v, _, dec := w.cond(f.Edges[pi], ns); dec {
						ph[f] = ssa.NewConst(constant.MakeBool(v), f.Type())
					} else {
						delete(ns.phi, f)
					}
				}
			}
			for k, v := range ph {
				ns.phi[k] = v
			}
			break
		}
		key := fmt.Sprintf("%d|%s", s.Index, ns.key())
		if w.seen[key] {
			continue
		}
		w.seen[key] = true
		w.block(s, 0, ns)
	}
}

// cond decides a branch condition: decided value, or the unrelated error value it tests against nil.
func (w *errWalk) cond(v ssa.Value, st *errState) (val bool, other ssa.Value, decided bool) {
	if n, ok := st.phi[v]; ok {
		v = n
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), nil, true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, _, d := w.cond(x.X, st)
			return !v, nil, d
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || !isErrorType(x.X.Type()) {
			return
		}
		a, b := x.X, x.Y
		if c, ok := a.(*ssa.Const); ok && c.IsNil() {
			a, b = b, a
		}
		if c, ok := b.(*ssa.Const); !ok || !c.IsNil() {
			return
		}
		switch w.nilness(a, st) {
		case 1:
			return x.Op == token.NEQ, nil, true
		case -1:
			return x.Op == token.EQL, nil, true
		}
		return false, w.resolve(a, st), false
	}
	return
}

// eofTest: this side of the branch is where the failure is just the end of the input.
func (w *errWalk) eofTest(v ssa.Value, st *errState, side bool) bool {
	x, ok := v.(*ssa.BinOp)
	if !ok || w.kind != "io" || x.Op != token.EQL && x.Op != token.NEQ {
		if c, ok := v.(*ssa.Call); ok && side && w.kind == "io" {
			if g := c.Call.StaticCallee(); g != nil && extFnName(g) == "errors.Is" {
				return true
			}
		}
		return false
	}
	isEOF := func(y ssa.Value) bool {
		u, ok := y.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.Name() == "EOF"
	}
	if isEOF(x.X) || isEOF(x.Y) {
		return side == (x.Op == token.EQL)
	}
	return false
}

func errorValue(c *ssa.Call, idx int) ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		return c
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
			return e
		}
	}
	return nil
}

func isFileEntry(f *ssa.Function) bool {
	n := apiName(f)
	return n != "" && errIdx(f) >= 0
}

func (c *Check) errorsReported() *Result {
	r := newResult()
	r.Min = 60
	r.Rules = []string{
		"for every call of a step that can fail (a package function returning an error, a file operation, a number or time parser) reachable from the decode and file entry points: on every path on which its error is non-nil, the function returns a non-nil error (the same one or another), or a further step that is tried instead decides the outcome",
	}
	r.Assumptions = []string{"File.Stat is a size hint and File.Close is a clean-up; their errors need not be reported", "library functions report failures through their error result"}
	reach := c.P.reachable(c.P.entries(func(f *ssa.Function) bool { return isDecodeEntry(f) || isFileEntry(f) }))
	for _, f := range c.P.Funcs {
		if !reach[f] || f.Synthetic != "" {
			continue
		}
		r.Functions[fnName(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				idx, kind := c.P.errStep(call)
				if kind == "" {
					continue
				}
				r.count("step_" + kind)
				w := &errWalk{p: c.P, f: f, call: call, eidx: idx, kind: kind, e: errorValue(call, idx), seen: map[string]bool{}}
				w.run()
				r.Counts["paths"] += w.paths
				if w.bad != "" {
					name := "the callee"
					if g := call.Call.StaticCallee(); g != nil {
						name = fnName(g)
					}
					r.bad(c.P, "error-reported", call.Pos(), fnName(f), "the failure of %s is not reported: %s (at %s)", name, w.bad, c.P.pos(w.badAt))
				} else if r.Analysed%9 == 0 {
					r.sample(c.P.pos(call.Pos()) + " " + fnName(f) + ": every path with a failure returns an error")
				}
			}
		}
	}
	return r
}
