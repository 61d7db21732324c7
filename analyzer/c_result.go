package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C05: an operation that builds a value returns a value or an error, never neither and never both.

func init() {
	register("C05", (*Check).valueOrError)
}

func isDxValuePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "DxValue"
}

// valueErrorResults finds the (value, error) pair of a signature.
func valueErrorResults(f *ssa.Function) (vi, ei int, ok bool) {
	vi, ei = -1, -1
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		switch {
		case isDxValuePtr(t):
			vi = i
		case isErrorType(t):
			ei = i
		}
	}
	return vi, ei, vi >= 0 && ei >= 0
}

func (c *Check) valueOrError() *Result {
	r := newResult()
	r.Min = 10
	r.Rules = []string{"for every exported function that returns a value and an error, at every return statement: error nil implies value non-nil, and error non-nil implies value nil; proved from dominating conditions and inferred summaries of the functions it calls"}
	r.Assumptions = []string{"package initialisation has run, so the shared constants are non-nil", "sync.Pool.Get returns what the pool's New function or a Put gave it"}
	s := c.solved()
	for _, fi := range s.Order {
		vi, ei, ok := valueErrorResults(fi.Fn)
		if !ok || !isExported(fi.Fn) {
			continue
		}
		r.Functions[fnName(fi.Fn)] = true
		for g := range fi.IR.Inlined {
			r.Functions[fnName(g)] = true
		}
		for _, ret := range fi.IR.Returns {
			v, e := ret.Args[vi], ret.Args[ei]
			r.count("value_on_success")
			if !fi.Pv.prove(ret.Blk, ret.Idx, Fact{K: FNonNil, N: v}, append(s.assume(fi), Fact{K: FNil, N: e}), 6) {
				r.bad(c.P, "value-or-error", ret.Pos, fnName(fi.Fn), "a return may give a nil value together with a nil error (value %v, error %v)", v, e)
			}
			r.count("nil_on_error")
			if !fi.Pv.prove(ret.Blk, ret.Idx, Fact{K: FNil, N: v}, append(s.assume(fi), Fact{K: FNonNil, N: e}), 6) {
				r.bad(c.P, "value-or-error", ret.Pos, fnName(fi.Fn), "a return may give a value together with an error (value %v, error %v)", v, e)
			}
		}
	}
	return r
}
