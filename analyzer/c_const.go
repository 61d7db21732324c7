package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: the shared constants are immutable, and package-level state is only changed by configuration calls.

func init() {
	register("C09", (*Check).constantsImmutable)
}

// units: functions analysed on their own under an inlining policy (API functions, functions used as values, and
// whatever is called but not inlined), with their IR.
type unit struct {
	Fn *ssa.Function
	IR *IR
}

func (p *Program) units(policy InlinePolicy) []*unit {
	if p.mods == nil {
		p.computeMods()
	}
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil || !p.internal(f) || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if f.Synthetic != "" {
			return
		}
		seen[f] = true
		work = append(work, f)
	}
	for _, f := range p.Funcs {
		if f.Name() == "init" && f.Signature.Recv() == nil {
			continue
		}
		if isExported(f) || dynCallable(p, f) || f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() {
			add(f)
		}
	}
	out := map[*ssa.Function]*unit{}
	for len(work) > 0 {
		batch := work
		work = nil
		irs := make([]*IR, len(batch))
		parallel(len(batch), func(i int) {
			irs[i] = p.buildIR(batch[i], policy)
		})
		for i, f := range batch {
			ir := irs[i]
			out[f] = &unit{Fn: f, IR: ir}
			for _, b := range ir.Blocks {
				for _, n := range b.Nodes {
					if (n.Op == OCall || n.Op == ODefer) && n.Callee != nil {
						add(n.Callee)
					}
					for _, a := range n.Args {
						if a.Op == OFunc {
							add(a.Callee)
						}
					}
					if n.Op == OMakeClosure && len(useOf(ir, n)) > 0 {
						add(n.Callee)
					}
				}
			}
		}
	}
	p.alias()
	var res []*unit
	for _, f := range p.Funcs {
		if u := out[f]; u != nil {
			res = append(res, u)
		}
	}
	for _, u := range res {
		u.IR.promote()
	}
	return res
}

// sharedConstants: package variables of type *DxValue set up by the package initialiser, with their value type.
func (p *Program) sharedConstants() map[string]int64 {
	out := map[string]int64{}
	initF := p.SSA.Func("init")
	if initF == nil {
		return out
	}
	fs := []*ssa.Function{initF}
	for _, b := range initF.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && p.internal(g) {
					fs = append(fs, g)
				}
			}
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || tname(deref(g.Type())) != "*DxValue" {
					continue
				}
				out[g.Name()] = -1
				al, ok := st.Val.(*ssa.Alloc)
				if !ok {
					continue
				}
				out[g.Name()] = 0
				for _, r := range *al.Referrers() {
					fa, ok := r.(*ssa.FieldAddr)
					if !ok || structOf(deref(al.Type())).Field(fa.Field).Name() != "DataType" {
						continue
					}
					for _, r2 := range *fa.Referrers() {
						if s2, ok := r2.(*ssa.Store); ok {
							if k, ok := s2.Val.(*ssa.Const); ok && k.Value != nil {
								v, _ := constant.Int64Val(k.Value)
								out[g.Name()] = v
							}
						}
					}
				}
			}
		}
	}
	return out
}

type constChk struct {
	p     *Program
	consts map[string]int64
	names []string
	req   map[*ssa.Function]map[int]bool
	r     *Result
	final bool
	changed bool
	ret   map[*ssa.Function]bool // results that may be a shared constant
}

// dtNodes: memory contents that are the value type of the object a pointer denotes.
func dtNodes(ir *IR) map[*Node][]*Node {
	out := map[*Node][]*Node{}
	for _, n := range ir.mem.vals {
		if n.MemLoc != nil && n.repl == nil && n.MemLoc.Class == "DxValue.DataType" && strings.Count(n.MemLoc.Path, ".") == 1 {
			r := n.MemLoc.Root.canon()
			out[r] = append(out[r], n)
		}
	}
	for _, l := range out {
		sortNodes(l)
	}
	return out
}

// constFacts: a value whose type is known not to be that of a shared constant is not that constant.
func (p *Program) constFacts(ir *IR, dts map[*Node][]*Node) func(st *FState, iff *Node) {
	type cg struct {
		n *Node
		t int64
	}
	var gs []cg
	seen := map[string]bool{}
	cs := p.sharedConstants()
	for _, n := range ir.mem.vals {
		if constGlobal(n) && n.repl == nil {
			name := strings.TrimPrefix(n.Name, "global ")
			if t, ok := cs[name]; ok && t >= 0 && t < 64 && !seen[name] {
				seen[name] = true
				gs = append(gs, cg{n, t})
			}
		}
	}
	type rd struct {
		r  *Node
		ds []*Node
	}
	var rs []rd
	for r, ds := range dts {
		if !neverConst(r) {
			rs = append(rs, rd{r, ds})
		}
	}
	return func(st *FState, iff *Node) {
		if len(gs) == 0 {
			return
		}
		for _, x := range rs {
			m := ^uint64(0)
			for _, d := range x.ds {
				if _, known := st.av[d]; !known {
					continue
				}
				if w, ok := st.val(d).asMask(); ok {
					m &= w
				}
			}
			if m == ^uint64(0) {
				continue
			}
			for _, g := range gs {
				if m&(1<<uint(g.t)) == 0 {
					for _, r := range []*Node{x.r, st.res(x.r)} {
						if neverConst(r) {
							continue
						}
						k := eqKey(r, g.n)
						if _, ok := st.fact[k]; !ok {
							st.fact[k] = false
						}
					}
				}
			}
		}
	}
}

func neverConst(n *Node) bool {
	switch n.Op {
	case OAlloc, OIndexAddr, OFieldAddr, OMakeIface, OConst:
		return true
	}
	return constGlobal(n)
}

func (cc *constChk) mayConst(st *FState, n *Node, dts map[*Node][]*Node) (string, bool) {
	n = n.canon()
	chain := []*Node{n}
	for i := 0; i < 20; i++ {
		v, ok := st.phi[n]
		if !ok {
			if n.Op == OChangeType {
				v = n.Args[0]
			} else {
				break
			}
		}
		n = v.canon()
		chain = append(chain, n)
	}
	switch n.Op {
	case OAlloc, OIndexAddr, OFieldAddr, OMakeIface:
		return "", false
	case OConst:
		return "", false
	case OCall:
		if n.Callee != nil && cc.p.internal(n.Callee) && !cc.ret[n.Callee] {
			return "", false
		}
	case OExtract:
		if c := n.Args[0].canon(); c.Op == OCall && c.Callee != nil && cc.p.internal(c.Callee) && !cc.ret[c.Callee] {
			return "", false
		}
	}
	if constGlobal(n) {
		return strings.TrimPrefix(n.Name, "global "), true
	}
	types := ^uint64(0)
	for _, x := range chain {
		for _, d := range dts[x] {
			if m, ok := st.val(d).asMask(); ok {
				types &= m
			}
		}
	}
	for _, g := range cc.names {
		t := cc.consts[g]
		if t >= 0 && t < 64 && types&(1<<uint(t)) == 0 {
			continue
		}
		excluded := false
		for k, v := range st.fact {
			if v || k.op.String() != "==" {
				continue
			}
			a, b := k.a, k.b
			for _, x := range chain {
				if b == x && isGlobalNode(a, g) || a == x && isGlobalNode(b, g) {
					excluded = true
				}
			}
		}
		if !excluded {
			if os.Getenv("DXDEBUG") != "" {
				fmt.Println("MAYCONST", g, types, n.dump(), st.key())
				for _, x := range chain {
					fmt.Println("   chain", x.dump())
				}
			}
			return g, true
		}
	}
	return "", false
}

func isGlobalNode(n *Node, g string) bool { return n.Op == OInit && n.Name == "global "+g }

// ownerOf: the DxValue (or VObject) pointer an address lies in, or nil when it does not lie in one.
func ownerOf(a *Node) *Node {
	for i := 0; i < 20; i++ {
		a = a.canon()
		switch a.Op {
		case OFieldAddr:
			b := a.Args[0].canon()
			if tn := tname(b.Typ); tn == "*DxValue" || tn == "*VObject" && b.Op != OFieldAddr {
				return b
			}
			a = b
		case OIndexAddr:
			b := a.Args[0].canon()
			if _, ok := b.Typ.Underlying().(*types.Slice); ok {
				return nil
			}
			a = b
		case OSlice:
			b := a.Args[0].canon()
			if _, ok := b.Typ.Underlying().(*types.Pointer); !ok {
				return nil
			}
			a = b
		case OConvert, OChangeType:
			a = a.Args[0]
		default:
			if a.Typ != nil && tname(a.Typ) == "*DxValue" {
				return a
			}
			return nil
		}
	}
	return nil
}

// globalBase: the package variable whose memory an address or slice belongs to.
func globalBase(a *Node) string {
	for i := 0; i < 20; i++ {
		a = a.canon()
		switch a.Op {
		case OFieldAddr, OIndexAddr, OSlice, OConvert, OChangeType:
			a = a.Args[0]
		case OLoad:
			a = a.Args[0]
		case OGlobal:
			return a.Name
		case OInit, OHavoc:
			if strings.HasPrefix(a.Name, "global ") && !constGlobal(a) {
				return strings.Fields(a.Name)[1]
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

func (cc *constChk) unit(u *unit) (visits int) {
	ir := u.IR
	dts := dtNodes(ir)
	fl := &Flow{IR: ir, Max: 24}
	fl.prepare()
	fl.Edge = cc.p.constFacts(ir, dts)
	for _, l := range dts {
		fl.Keep(l...)
	}
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			if x := n.canon(); x == n && n.Typ != nil && tname(n.Typ) == "*DxValue" {
				fl.Keep(n)
			}
		}
	}
	fl.Keep(ir.Params...)
	for _, n := range ir.mem.vals {
		if constGlobal(n) {
			fl.Keep(n)
		}
	}
	tracked := map[*Node]bool{}
	fl.Track = func(n *Node) bool {
		if v, ok := tracked[n]; ok {
			return v
		}
		t := n.Typ != nil && (tname(n.Typ) == "*DxValue" || tname(n.Typ) == "ValueType" || isBoolNode(n) && n.Op != OBin)
		tracked[n] = t
		return t
	}
	type site struct {
		n   *Node
		why string
	}
	bad := map[*Node]string{}
	ok := map[*Node]bool{}
	check := func(st *FState, n, ptr *Node, what string) {
		g, may := cc.mayConst(st, ptr, dts)
		if !may {
			ok[n] = true
			return
		}
		r := st.res(ptr)
		if r.Op == OParam {
			idx := -1
			for i, q := range ir.Params {
				if q == r {
					idx = i
				}
			}
			api := isExported(u.Fn) && tname(r.Typ) == "*DxValue" || dynCallable(cc.p, u.Fn)
			if idx >= 0 && !api {
				if !cc.req[u.Fn][idx] {
					if cc.req[u.Fn] == nil {
						cc.req[u.Fn] = map[int]bool{}
					}
					cc.req[u.Fn][idx] = true
					cc.changed = true
				}
				ok[n] = true
				return
			}
		}
		if _, dup := bad[n]; !dup {
			bad[n] = fmt.Sprintf("%s, which may be the shared constant %s here", what, g)
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		switch n.Op {
		case OStore:
			if o := ownerOf(n.Args[0]); o != nil {
				check(st, n, o, "writes to a value")
			}
		case OReturn:
			for _, a := range n.Args {
				if tname(a.Typ) == "*DxValue" && !cc.ret[u.Fn] {
					if _, may := cc.mayConst(st, a, dts); may {
						cc.ret[u.Fn] = true
						cc.changed = true
					}
				}
			}
		case OBuiltin:
			if n.Name == "copy" || n.Name == "append" {
				if o := ownerOf(n.Args[0]); o != nil && n.Args[0].canon().Op == OSlice {
					check(st, n, o, "writes to the memory of a value")
				}
			}
		case OCall, ODefer:
			if n.Callee == nil {
				break
			}
			if cc.p.internal(n.Callee) {
				for i := range cc.req[n.Callee] {
					if i < len(n.Args) {
						a := n.Args[i].canon()
						if o := a; tname(o.Typ) == "*DxValue" {
							check(st, n, o, "passes a value to "+fnName(n.Callee)+", which changes it,")
						} else if o := ownerOf(a); o != nil {
							check(st, n, o, "passes part of a value to "+fnName(n.Callee)+", which changes it,")
						}
					}
				}
			} else if w, isw := externWrites(n.Callee); isw && w < len(n.Args) {
				if o := ownerOf(n.Args[w]); o != nil {
					check(st, n, o, "writes to the memory of a value")
				}
			}
		}
		return true
	}
	fl.run()
	if fl.Too {
		cc.r.Counts["too_large"]++
		return fl.Visits
	}
	if cc.final {
		for n := range ok {
			if bad[n] == "" {
				cc.r.count("guarded_writes")
			}
		}
		var ns []*Node
		for n := range bad {
			ns = append(ns, n)
		}
		sortNodes(ns)
		for _, n := range ns {
			cc.r.count("guarded_writes")
			cc.r.bad(cc.p, "constants-immutable", n.Pos, n.Frame.chain(cc.p), "%s", bad[n])
		}
	}
	return fl.Visits
}

func (c *Check) constantsImmutable() *Result {
	r := newResult()
	r.Min = 60
	r.Rules = []string{
		"every write to a field of a value (in every function, helpers and recursion included) happens on paths where the value cannot be any of the process-wide constants: it was created here, it was compared with each of them, or its type was found to be one that constant does not have",
		"package variables, and memory that belongs to them, are only written by the package initialiser and by configuration functions (exported functions that are not methods)",
	}
	r.Assumptions = []string{"package variables exported for configuration are not assigned a different value by the program while values are in use"}
	cc := &constChk{p: c.P, consts: c.P.sharedConstants(), req: map[*ssa.Function]map[int]bool{}, ret: map[*ssa.Function]bool{}, r: r}
	for g := range cc.consts {
		cc.names = append(cc.names, g)
	}
	sort.Strings(cc.names)
	r.Counts["constants"] = len(cc.names)
	us := c.P.units(inlineUpTo(40))
	for round := 0; round < 12; round++ {
		cc.changed = false
		for _, u := range us {
			cc.unit(u)
		}
		if !cc.changed {
			break
		}
	}
	cc.final = true
	for _, u := range us {
		r.Functions[fnName(u.Fn)] = true
		cc.unit(u)
	}
	c.globalWrites(r)
	return r
}

// globalWrites: stores to package-level memory.
func (c *Check) globalWrites(r *Result) {
	config := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || isExported(f) && f.Signature.Recv() == nil && f.Signature.Results().Len() == 0
	}
	initOnly := func() map[*ssa.Function]bool {
		reach := map[*ssa.Function]bool{}
		for f := range c.P.reachable(c.P.entries(isExported)) {
			reach[f] = true
		}
		return reach
	}()
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" && f.Name() != "init" || !initOnly[f] {
			continue
		}
		var base func(v ssa.Value, d int) *ssa.Global
		base = func(v ssa.Value, d int) *ssa.Global {
			if d > 12 {
				return nil
			}
			switch x := v.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				return base(x.X, d+1)
			case *ssa.IndexAddr:
				return base(x.X, d+1)
			case *ssa.Slice:
				return base(x.X, d+1)
			case *ssa.ChangeType:
				return base(x.X, d+1)
			case *ssa.Convert:
				return base(x.X, d+1)
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					if g := base(x.X, d+1); g != nil && tname(deref(g.Type())) != "*DxValue" {
						return g
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					return base(x.Call.Args[0], d+1)
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if e != v {
						if g := base(e, d+4); g != nil {
							return g
						}
					}
				}
			}
			return nil
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Global
				what := ""
				switch x := in.(type) {
				case *ssa.Store:
					g, what = base(x.Addr, 0), "writes"
				case *ssa.MapUpdate:
					g, what = base(x.Map, 0), "updates"
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "delete" || bi.Name() == "clear" {
							g, what = base(x.Call.Args[0], 0), bi.Name()+"s to"
						}
						break
					}
					h := x.Call.StaticCallee()
					if h == nil || c.P.internal(h) {
						break
					}
					if w, ok := externWrites(h); ok && w < len(x.Call.Args) {
						g, what = base(x.Call.Args[w], 0), "has "+h.Name()+" write to"
					}
					if h.Signature.Recv() != nil && len(x.Call.Args) > 0 {
						rt := tname(h.Signature.Recv().Type())
						switch {
						case rt == "*Map" && (h.Name() == "Load" || h.Name() == "Range"), rt == "*Pool", rt == "*Mutex", rt == "*RWMutex", rt == "*Once":
						case strings.HasPrefix(rt, "*"):
							if gl, ok := x.Call.Args[0].(*ssa.Global); ok && !isPtrLike(deref(gl.Type())) {
								g, what = gl, "calls "+h.Name()+" on"
							}
						}
					}
				}
				if g == nil || g.Pkg != c.P.SSA {
					continue
				}
				r.count("package_state_writes")
				if !config(f) {
					r.bad(c.P, "package-state", in.Pos(), fnName(f), "%s the package variable %s while processing values", what, g.Name())
				}
			}
		}
	}
}
