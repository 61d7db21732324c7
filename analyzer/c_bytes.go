package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07 and C08: who may refer to the caller's bytes, and who may write to them.

func init() {
	register("C07", (*Check).noSharing)
}

// treeClass: the heap locations that make up a decoded tree
func treeClass(c string) bool {
	return strings.HasPrefix(c, "DxValue.") || strings.HasPrefix(c, "VObject.") || strings.HasPrefix(c, "strkv.")
}

// shareParam: the index of the sharing option of a decode entry, or -1
func shareParam(f *ssa.Function) int {
	cand := -1
	n := 0
	for i, p := range f.Params {
		if p.Type().String() != "bool" {
			continue
		}
		ln := strings.ToLower(p.Name())
		if strings.Contains(ln, "share") {
			return i
		}
		if !strings.Contains(ln, "cache") {
			cand = i
			n++
		}
	}
	if n == 1 {
		return cand
	}
	return -1
}

func (c *Check) noSharing() *Result {
	r := newResult()
	r.Min = 20
	r.Rules = []string{"data flow from the input bytes of every decode entry point, with the sharing option fixed to false where there is one (and carried down through calls and branches): no value that may refer to the input's memory is stored into a field of a tree (value, object or member); string(), []byte(), append to another slice and the unescaping helper copy, FastByte2String, slicing and unsafe conversions do not"}
	r.Assumptions = []string{"bytes read from a file belong to the decoder and are not the caller's input buffer"}
	t := newTaint(c.P)
	t.isSink = treeClass
	ents := c.P.entries(isDecodeEntry)
	t.run(func() []taintKey {
		var ks []taintKey
		for _, f := range ents {
			k := taintKey{fn: f}
			for i, p := range f.Params {
				if isByteSlice(p.Type()) {
					k.args |= 1 << uint(i)
				}
			}
			if k.args == 0 {
				continue
			}
			if i := shareParam(f); i >= 0 {
				k.fls |= 1 << uint(i)
			}
			ks = append(ks, k)
		}
		return ks
	})
	for f := range t.fns {
		r.Functions[fnName(f)] = true
	}
	for s := range t.sites {
		if s[0] == 's' {
			r.count("tree_store")
		}
	}
	r.Counts["contexts"] = len(t.sums)
	for _, e := range t.sorted() {
		if e.Kind == "store" {
			r.bad(c.P, "shares-input", e.Pos, fnName(e.Fn), "%s although sharing was not requested", e.What)
		}
	}
	return r
}
