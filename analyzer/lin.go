package main

import (
	"fmt"
	"sort"
	"strings"
)

// Linear expressions over atoms and a Fourier-Motzkin entailment test (integers, with gcd tightening).

type AtomKind uint8

const (
	AVal AtomKind = iota
	ALen
	ACap
)

type Atom struct {
	Kind AtomKind
	N    *Node
}

func (a Atom) String() string {
	switch a.Kind {
	case ALen:
		return "len(" + a.N.String() + ")"
	case ACap:
		return "cap(" + a.N.String() + ")"
	}
	return a.N.String()
}

type Lin struct {
	C int64
	M map[Atom]int64
}

func linC(c int64) Lin { return Lin{C: c} }
func linA(a Atom) Lin  { return Lin{M: map[Atom]int64{a: 1}} }

func (l Lin) add(o Lin, k int64) Lin {
	r := Lin{C: l.C + k*o.C, M: map[Atom]int64{}}
	for a, c := range l.M {
		r.M[a] += c
	}
	for a, c := range o.M {
		r.M[a] += k * c
		if r.M[a] == 0 {
			delete(r.M, a)
		}
	}
	return r
}
func (l Lin) plus(c int64) Lin   { return Lin{C: l.C + c, M: l.M} }
func (l Lin) scale(k int64) Lin  { return Lin{}.add(l, k) }
func (l Lin) isConst() bool      { return len(l.M) == 0 }
func (l Lin) String() string {
	var s []string
	for a, c := range l.M {
		s = append(s, fmt.Sprintf("%+d*%s", c, a))
	}
	sort.Strings(s)
	return strings.Join(s, " ") + fmt.Sprintf(" %+d", l.C)
}

type term struct {
	v int32
	c int64
}

// row is c + sum(t) >= 0 with terms sorted by variable.
type row struct {
	c int64
	t []term
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

const big = int64(1) << 60

func (r *row) norm() bool { // false: overflow
	var g int64
	for _, x := range r.t {
		if x.c > big || x.c < -big {
			return false
		}
		g = gcd(g, x.c)
	}
	if r.c > big*4 || r.c < -big*4 {
		return false
	}
	if g > 1 {
		for i := range r.t {
			r.t[i].c /= g
		}
		r.c = floorDiv(r.c, g)
	}
	return true
}

func (r *row) coef(v int32) int64 {
	for _, x := range r.t {
		if x.v == v {
			return x.c
		}
	}
	return 0
}

func hashTerms(t []term, sign int64) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range t {
		h = (h ^ uint64(x.v)) * 1099511628211
		h = (h ^ uint64(x.c*sign)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func sameTerms(a, b []term, sign int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].v != b[i].v || a[i].c != sign*b[i].c {
			return false
		}
	}
	return true
}

// combine is x*p + y*q.
func combine(p *row, x int64, q *row, y int64) row {
	n := row{c: x*p.c + y*q.c, t: make([]term, 0, len(p.t)+len(q.t))}
	i, j := 0, 0
	for i < len(p.t) || j < len(q.t) {
		switch {
		case j >= len(q.t) || i < len(p.t) && p.t[i].v < q.t[j].v:
			n.t = append(n.t, term{p.t[i].v, x * p.t[i].c})
			i++
		case i >= len(p.t) || q.t[j].v < p.t[i].v:
			n.t = append(n.t, term{q.t[j].v, y * q.t[j].c})
			j++
		default:
			if c := x*p.t[i].c + y*q.t[j].c; c != 0 {
				n.t = append(n.t, term{p.t[i].v, c})
			}
			i++
			j++
		}
	}
	return n
}

// dedup keeps the strongest row per left-hand side; true means a contradiction was found.
func dedup(rs []row) ([]row, bool) {
	best := make(map[uint64]int32, len(rs))
	out := rs[:0:0]
	out = make([]row, 0, len(rs))
next:
	for _, r := range rs {
		if len(r.t) == 0 {
			if r.c < 0 {
				return nil, true
			}
			continue
		}
		h := hashTerms(r.t, 1)
		for {
			j, ok := best[h]
			if !ok {
				break
			}
			if sameTerms(out[j].t, r.t, 1) {
				if r.c < out[j].c {
					out[j].c = r.c
				}
				continue next
			}
			h++
		}
		best[h] = int32(len(out))
		out = append(out, r)
	}
	return out, false
}

// infeasible reports whether {l >= 0 for all l} has no integer solution (sound: true means none exists).
func infeasible(cons []Lin) bool {
	idx := map[Atom]int32{}
	rows := make([]row, 0, len(cons))
	for _, l := range cons {
		if len(l.M) == 0 {
			if l.C < 0 {
				return true
			}
			continue
		}
		r := row{c: l.C, t: make([]term, 0, len(l.M))}
		for a, c := range l.M {
			i, ok := idx[a]
			if !ok {
				i = int32(len(idx))
				idx[a] = i
			}
			if c != 0 {
				r.t = append(r.t, term{i, c})
			}
		}
		if len(r.t) > 1 {
			sort.Slice(r.t, func(i, j int) bool { return r.t[i].v < r.t[j].v })
		}
		if !r.norm() {
			continue
		}
		rows = append(rows, r)
	}
	rows, bad := dedup(rows)
	if bad {
		return true
	}
	// equality substitution: pairs r, -r
	for {
		at := make(map[uint64]int32, len(rows))
		for i := range rows {
			at[hashTerms(rows[i].t, 1)] = int32(i)
		}
		eq, ev := -1, int32(0)
		var cv int64
		for i := range rows {
			r := &rows[i]
			j, ok := at[hashTerms(r.t, -1)]
			if !ok || !sameTerms(rows[j].t, r.t, -1) {
				continue
			}
			if rows[j].c+r.c < 0 {
				return true
			}
			if rows[j].c+r.c == 0 {
				for _, x := range r.t {
					if x.c == 1 || x.c == -1 {
						eq, ev, cv = i, x.v, x.c
						break
					}
				}
				if eq >= 0 {
					break
				}
			}
		}
		if eq < 0 {
			break
		}
		e := rows[eq]
		nr := make([]row, 0, len(rows))
		for i := range rows {
			v := rows[i].coef(ev)
			if v == 0 {
				nr = append(nr, rows[i])
				continue
			}
			n := combine(&rows[i], 1, &e, -(v / cv)) // cv is +-1
			if n.norm() {
				nr = append(nr, n)
			}
		}
		rows, bad = dedup(nr)
		if bad {
			return true
		}
	}
	nv := len(idx)
	pos, neg := make([]int, nv), make([]int, nv)
	for iter := 0; iter < 64; iter++ {
		// pick the variable with the smallest product of signs
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for i := range rows {
			for _, x := range rows[i].t {
				if x.c > 0 {
					pos[x.v]++
				} else {
					neg[x.v]++
				}
			}
		}
		bestV, bestC := -1, 1<<30
		for k := 0; k < nv; k++ {
			if pos[k]+neg[k] == 0 {
				continue
			}
			if c := pos[k]*neg[k] - pos[k] - neg[k]; c < bestC {
				bestC, bestV = c, k
			}
		}
		if bestV < 0 {
			return false
		}
		if pos[bestV]*neg[bestV] > 3000 {
			return false
		}
		var ps, ns []int
		rest := make([]row, 0, len(rows))
		for i := range rows {
			v := rows[i].coef(int32(bestV))
			switch {
			case v > 0:
				ps = append(ps, i)
			case v < 0:
				ns = append(ns, i)
			default:
				rest = append(rest, rows[i])
			}
		}
		for _, p := range ps {
			for _, q := range ns {
				a, b := rows[p].coef(int32(bestV)), -rows[q].coef(int32(bestV))
				if a > 1<<20 || b > 1<<20 {
					continue
				}
				n := combine(&rows[p], b, &rows[q], a)
				if n.norm() {
					rest = append(rest, n)
				}
			}
		}
		rows, bad = dedup(rest)
		if bad {
			return true
		}
		if len(rows) > 1500 {
			return false
		}
	}
	return false
}
