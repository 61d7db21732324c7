package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: files are opened, written, read and closed completely. Typestate on every file handle.

func init() {
	register("C23", (*Check).files)
}

type fileState struct {
	open    map[*Node]bool  // opening call -> not closed yet
	closed  map[*Node]bool  // closed explicitly (not by a deferred call)
	wrote   map[*Node]bool  // content was written
	dirty   map[*Node]*Node // opening call -> buffered write that was not flushed
	dflush  map[*Node]bool
	pending map[*Node]*Node // opening call -> read whose bytes were not kept yet
	last    map[*Node]*Node // opening call -> last read
	eof     map[*Node]bool  // the end of the file was seen
	lost    map[*Node]bool  // the handle went where the analysis does not follow
}

func newFileState() *fileState {
	return &fileState{map[*Node]bool{}, map[*Node]bool{}, map[*Node]bool{}, map[*Node]*Node{}, map[*Node]bool{}, map[*Node]*Node{}, map[*Node]*Node{}, map[*Node]bool{}, map[*Node]bool{}}
}

func (s *fileState) Key() string {
	var ks []string
	for i, m := range []map[*Node]bool{s.open, s.closed, s.wrote, s.dflush, s.eof, s.lost} {
		for n := range m {
			ks = append(ks, fmt.Sprintf("%d:%d", i, n.ID))
		}
	}
	for i, m := range []map[*Node]*Node{s.dirty, s.pending, s.last} {
		for n, v := range m {
			ks = append(ks, fmt.Sprintf("m%d:%d=%d", i, n.ID, v.ID))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s *fileState) Clone() CState {
	n := newFileState()
	cp := func(a, b map[*Node]bool) {
		for k, v := range b {
			a[k] = v
		}
	}
	cn := func(a, b map[*Node]*Node) {
		for k, v := range b {
			a[k] = v
		}
	}
	cp(n.open, s.open)
	cp(n.closed, s.closed)
	cp(n.wrote, s.wrote)
	cp(n.dflush, s.dflush)
	cp(n.eof, s.eof)
	cp(n.lost, s.lost)
	cn(n.dirty, s.dirty)
	cn(n.pending, s.pending)
	cn(n.last, s.last)
	return n
}

func extOf(n *Node, pkg string, names ...string) bool {
	if n.Op != OCall && n.Op != ODefer || n.Callee == nil {
		return false
	}
	o := n.Callee.Object()
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != pkg {
		return false
	}
	for _, m := range names {
		if o.Name() == m {
			return true
		}
	}
	return false
}

func isOpen(n *Node) bool {
	return n.Op == OCall && extOf(n, "os", "Open", "OpenFile", "Create", "CreateTemp") && (n.Callee.Signature.Recv() == nil)
}

type fileChk struct {
	p *Program
	r *Result
}

// methodOf: the method called (statically or through an interface) and its receiver.
func methodOf(n *Node) (string, *Node) {
	if n.Op != OCall && n.Op != ODefer {
		return "", nil
	}
	if n.Method != nil && len(n.Args) > 0 {
		return n.Method.Name(), n.Args[0]
	}
	if n.Callee != nil && n.Callee.Signature.Recv() != nil && len(n.Args) > 0 {
		return n.Callee.Name(), n.Args[0]
	}
	return "", nil
}

func (fc *fileChk) unit(u *unit) {
	ir, p := u.IR, fc.p
	var all, opens []*Node
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			all = append(all, n)
			if isOpen(n) {
				opens = append(opens, n)
			}
		}
	}
	touch := len(opens) > 0
	for _, n := range all {
		if extOf(n, "os", "WriteFile") || extOf(n, "io/ioutil", "WriteFile") || extOf(n, "io", "LimitReader", "CopyN") {
			touch = true
		}
	}
	if !touch {
		return
	}
	fc.r.Functions[fnName(u.Fn)] = true
	errOf := map[*Node]*Node{} // call -> its error result
	cntOf := map[*Node]*Node{} // call -> its integer result
	for _, n := range all {
		if n.Op == OExtract {
			c := n.Args[0].canon()
			if isErrorType(n.Typ) {
				errOf[c] = n.canon()
			} else if isIntType(n.Typ) {
				cntOf[c] = n.canon()
			}
		}
	}
	fl := &Flow{IR: ir, Max: 64, Init: newFileState()}
	fl.prepare()
	var dts, lens []*Node
	for _, n := range all {
		if n.Op == OLoad && rawNode(n.Args[0]).Op == OFieldAddr && fieldNameOf(rawNode(n.Args[0])) == "DxValue.DataType" {
			dts = append(dts, n)
			fl.Keep(n)
		}
		if n.Op == OBin && (n.Tok == token.EQL || n.Tok == token.NEQ) && isErrorType(n.Args[0].Typ) {
			fl.Keep(n.Args...)
		}
		if extOf(n, "errors", "Is") {
			fl.Keep(n)
			fl.Keep(n.Args...)
		}
		if n.Op == OBuiltin && n.Name == "len" {
			lens = append(lens, n)
			fl.Keep(n)
		}
	}
	for _, e := range errOf {
		fl.Keep(e)
	}
	bad := map[*Node]string{}
	seen := map[*Node]bool{}
	fail := func(n *Node, format string, args ...any) {
		if _, dup := bad[n]; !dup {
			bad[n] = fmt.Sprintf(format, args...)
		}
	}
	// handleOf: the opening call a handle (or a buffered writer on it) comes from
	var handleOf func(st *FState, h *Node, d int) (*Node, bool)
	handleOf = func(st *FState, h *Node, d int) (*Node, bool) {
		h = st.res(h)
		for h.Op == OMakeIface || h.Op == OChangeIface {
			h = st.res(h.Args[0])
		}
		if h.Op == OExtract {
			if c := h.Args[0].canon(); isOpen(c) {
				return c, false
			}
		}
		if h.Op == OCall && d < 3 && extOf(h, "bufio", "NewWriter", "NewWriterSize") {
			c, _ := handleOf(st, h.Args[0], d+1)
			return c, true
		}
		return nil, false
	}
	// isNil: 1 known nil, -1 known not nil, 0 unknown
	isNil := func(st *FState, e *Node) int {
		e = st.res(e)
		if e.IsNil {
			return 1
		}
		if neverNil(e) {
			return -1
		}
		for k, v := range st.fact {
			if k.op == token.EQL && (k.a == e && k.b.IsNil || k.b == e && k.a.IsNil) {
				if v {
					return 1
				}
				return -1
			}
			if k.op == token.EQL && v && (k.a == e && isSentinel(k.b) || k.b == e && isSentinel(k.a)) {
				return -1
			}
		}
		return 0
	}
	atEOF := func(st *FState, rd *Node) bool {
		if c := cntOf[rd]; c != nil && st.val(c).hi <= 0 {
			return true
		}
		e := errOf[rd]
		if e == nil {
			return false
		}
		for k, v := range st.fact {
			if k.op == token.EQL && v && (k.a == e && isSentinel(k.b) || k.b == e && isSentinel(k.a)) {
				return true
			}
		}
		for _, n := range all {
			if extOf(n, "errors", "Is") && len(n.Args) == 2 && st.res(n.Args[0]) == e {
				if v, ok := st.decide(n, 0); ok && v {
					return true
				}
			}
		}
		return false
	}
	dtMask := func(st *FState, obj *Node) uint64 {
		for _, d := range dts {
			if st.res(rawNode(d.Args[0]).Args[0]) == obj {
				if m, ok := st.val(d).asMask(); ok {
					return m
				}
			}
		}
		return ^uint64(0)
	}
	inLoop := func(n *Node) bool { return n.Blk != nil && n.Blk.loop != nil }
	isLenOf := func(st *FState, h, x *Node) bool {
		h = st.res(h)
		return h.Op == OBuiltin && h.Name == "len" && st.res(h.Args[0]) == x
	}
	exb, _ := p.intConst("VT_ExBinary")
	// literal: bytes fixed in the program text
	var literal func(st *FState, x *Node) bool
	literal = func(st *FState, x *Node) bool {
		x = st.res(x)
		switch x.Op {
		case OConst:
			return !x.IsNil
		case OConvert:
			return literal(st, x.Args[0])
		case OSlice:
			a := st.res(x.Args[0])
			if a.Op == OAlloc {
				if at, ok := deref(a.Typ).Underlying().(*types.Array); ok {
					n := 0
					for _, s := range all {
						if s.Op == OStore && s.Args[0].canon().Op == OIndexAddr && s.Args[0].canon().Args[0].canon() == a {
							if s.Args[1].canon().Op != OConst {
								return false
							}
							n++
						}
					}
					return int64(n) == at.Len() && n > 0
				}
			}
			if a.Op == OGlobal || a.Op == OInit && strings.HasPrefix(a.Name, "global ") {
				return true
			}
		case OInit:
			return strings.HasPrefix(x.Name, "global ")
		}
		return false
	}
	// whole: what is written is not a fixed part of the content
	whole := func(st *FState, n, x *Node) {
		x = st.res(x)
		for i := 0; i < 8; i++ {
			if x.Op == OConvert {
				x = st.res(x.Args[0])
				continue
			}
			if x.Op != OSlice {
				return
			}
			base := st.res(x.Args[0])
			i := 1
			if x.Lo {
				lo := st.val(x.Args[1])
				i = 2
				if c, ok := lo.exact(); ok && c > 0 {
					fine := false
					if c == 1 {
						if l := st.res(x.Args[0]); l.MemLoc != nil || l.Op == OLoad {
							if a := rawVal(x.Args[0]); a.Op == OLoad && rawNode(a.Args[0]).Op == OFieldAddr && fieldNameOf(rawNode(a.Args[0])) == "DxValue.fbinary" {
								m := dtMask(st, st.res(rawNode(a.Args[0]).Args[0]))
								fine = m&^(1<<uint(exb)) == 0 || m == ^uint64(0)
							} else {
								fine = true
							}
						}
					}
					if !fine {
						fail(n, "writes the content without its first %d bytes", c)
					}
				}
			}
			if x.Hi {
				hi := st.res(x.Args[i])
				switch {
				case isLenOf(st, hi, base) || inLoop(n):
				case hi.Op == OConst:
					if a := deref(base.Typ); a != nil {
						if at, ok := a.Underlying().(*types.Array); ok {
							if c, ok := st.val(hi).exact(); ok && c == at.Len() {
								break
							}
						}
					}
					fail(n, "writes only a fixed number of bytes of the content")
				case hi.Op == OBin && hi.Tok == token.SUB && isLenOf(st, hi.Args[0], base) && st.val(hi.Args[1]).lo > 0:
					fail(n, "writes the content without its last bytes")
				case hi.Op == OBin && (hi.Tok == token.QUO || hi.Tok == token.SHR || hi.Tok == token.REM || hi.Tok == token.AND):
					fail(n, "writes only a part of the content")
				case hi.Op == OBuiltin && hi.Name == "min":
					fail(n, "writes at most a fixed number of bytes of the content")
				}
			}
			x = base
		}
	}
	// keeps: the read's bytes become part of the data
	type keep struct{ base, buf, lo, cnt *Node }
	reads := map[*Node]keep{}
	for _, n := range all {
		m, _ := methodOf(n)
		if m == "Read" && n.Op == OCall && len(n.Args) == 2 {
			b := n.Args[1].canon()
			k := keep{base: b, buf: b, cnt: cntOf[n.canon()]}
			if b.Op == OSlice {
				k.base = b.Args[0].canon()
				if b.Lo {
					k.lo = b.Args[1].canon()
				}
			}
			reads[n.canon()] = k
		}
	}
	keepsRead := func(st *FState, n, rd *Node) bool {
		k := reads[rd]
		if k.cnt == nil {
			return false
		}
		hiIs := func(s *Node, add *Node) bool {
			if !s.Hi {
				return false
			}
			i := 1
			if s.Lo {
				i = 2
			}
			h := s.Args[i].canon()
			if add == nil {
				return h == k.cnt
			}
			return h.Op == OBin && h.Tok == token.ADD && (h.Args[0].canon() == add && h.Args[1].canon() == k.cnt || h.Args[1].canon() == add && h.Args[0].canon() == k.cnt)
		}
		isBase := func(x *Node) bool { x = x.canon(); return x == k.base || x == k.buf }
		switch n.Op {
		case OSlice:
			return isBase(n.Args[0]) && (hiIs(n, k.lo) || k.lo == nil && hiIs(n, nil))
		case OBuiltin:
			if n.Name == "append" && len(n.Args) == 2 {
				s := n.Args[1].canon()
				return s.Op == OSlice && isBase(s.Args[0]) && (hiIs(s, k.lo) || hiIs(s, nil) && !s.Lo)
			}
		case OCall:
			// handed on (to a buffer, a hash, ...)
			for _, a := range n.Args {
				s := a.canon()
				if s.Op == OSlice && isBase(s.Args[0]) && (hiIs(s, k.lo) || hiIs(s, nil) && !s.Lo) {
					return true
				}
			}
		}
		return false
	}
	writable := func(op *Node, n *Node) {
		if op.Callee.Name() != "OpenFile" {
			if op.Callee.Name() == "Open" {
				fail(n, "writes through a handle that is opened for reading only (at %s)", p.pos(op.Pos))
			}
			return
		}
		f := op.Args[1].canon()
		if f.Op != OConst || f.Const == nil {
			return
		}
		v, _ := constant.Int64Val(constant.ToInt(f.Const))
		c := func(name string) int64 {
			for _, imp := range p.SSA.Pkg.Imports() {
				if imp.Path() == "os" {
					if k, ok := imp.Scope().Lookup(name).(*types.Const); ok {
						x, _ := constant.Int64Val(constant.ToInt(k.Val()))
						return x
					}
				}
			}
			return 0
		}
		switch {
		case v&(c("O_WRONLY")|c("O_RDWR")) == 0:
			fail(op, "the file is opened for reading only, but written to")
		case v&c("O_CREATE") == 0:
			fail(op, "the file is opened for writing without being created if it does not exist")
		case v&c("O_TRUNC") == 0:
			trunc := false
			for _, m := range all {
				if nm, _ := methodOf(m); nm == "Truncate" || extOf(m, "os", "Truncate", "Remove") {
					trunc = true
				}
			}
			if !trunc {
				fail(op, "the file is opened for writing without dropping its old content")
			}
		case v&c("O_EXCL") != 0:
			fail(op, "the file is opened for writing only if it does not exist yet")
		}
	}
	fl.Edge = func(st *FState, iff *Node) {
		fs := st.C.(*fileState)
		for h, rd := range fs.last {
			if atEOF(st, rd) {
				fs.eof[h] = true
			}
		}
	}
	fl.Step = func(st *FState, n *Node) bool {
		fs := st.C.(*fileState)
		for h, rd := range fs.pending {
			if keepsRead(st, n.canon(), rd) {
				delete(fs.pending, h)
			}
		}
		switch n.Op {
		case OCall, ODefer:
			if isOpen(n) {
				fs.open[n] = true
				seen[n] = true
				delete(fs.closed, n)
				delete(fs.wrote, n)
				delete(fs.pending, n)
				delete(fs.last, n)
				delete(fs.eof, n)
				delete(fs.lost, n)
				break
			}
			if extOf(n, "os", "WriteFile") || extOf(n, "io/ioutil", "WriteFile") {
				seen[n] = true
				whole(st, n, n.Args[1])
				break
			}
			if extOf(n, "io", "LimitReader", "CopyN") {
				if c, _ := handleOf(st, n.Args[len(n.Args)-2], 0); c != nil {
					fail(n, "reads at most a given number of bytes of the file")
				}
			}
			m, rcv := methodOf(n)
			if m == "" && n.Callee != nil && n.Callee.Object() != nil && n.Callee.Object().Pkg() != nil && len(n.Args) > 0 {
				switch n.Callee.Object().Pkg().Path() + "." + n.Callee.Name() {
				case "io.WriteString":
					m, rcv = "WriteString", n.Args[0]
				case "io.Copy", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.CopyBuffer":
					m, rcv = "ReadFrom", n.Args[0]
				}
			}
			var h *Node
			buffered := false
			if rcv != nil {
				h, buffered = handleOf(st, rcv, 0)
			}
			if h == nil {
				// does a handle leave the analysed code?
				isH := func(a *Node) bool {
					return isHandleType(a.Typ)
				}
				lose := func(a *Node) {
					if c, _ := handleOf(st, a, 0); c != nil {
						delete(fs.open, c)
						fs.lost[c] = true
						delete(fs.dirty, c)
						delete(fs.last, c)
						delete(fs.pending, c)
					}
				}
				if extOf(n, "bufio", "NewWriter", "NewWriterSize") {
					break
				}
				for _, a := range n.Args {
					if a.Typ != nil && isH(a) {
						lose(a)
						if c, _ := handleOf(st, a, 0); c == nil {
							for o := range fs.open {
								delete(fs.open, o)
								fs.lost[o] = true
							}
						}
					}
				}
				if n.Op == ODefer && n.Callee != nil && n.Callee.Parent() != nil && callsClose(n.Callee) {
					fs.open = map[*Node]bool{}
					break
				}
				if n.Callee != nil && n.Callee.Parent() != nil || n.Callee == nil && n.Method == nil {
					// a closure: it may do anything to the handles it captured
					for _, o := range opens {
						delete(fs.open, o)
						fs.lost[o] = true
					}
					fs.pending, fs.last, fs.dirty = map[*Node]*Node{}, map[*Node]*Node{}, map[*Node]*Node{}
				}
				break
			}
			seen[n] = true
			switch m {
			case "Close":
				if buffered {
					break
				}
				delete(fs.open, h)
				if n.Op == OCall {
					if w := fs.dirty[h]; w != nil {
						fail(w, "buffered content is not flushed before the file is closed")
					}
					fs.closed[h] = true
				} else if fs.dflush[h] {
					fail(n, "the deferred close runs before the deferred flush")
				}
			case "Flush":
				if n.Op == ODefer {
					fs.dflush[h] = true
				}
				delete(fs.dirty, h)
			case "Write", "WriteString", "WriteAt", "ReadFrom":
				if n.Op == ODefer {
					break
				}
				if fs.closed[h] {
					fail(n, "writes to a handle that is closed already")
				}
				writable(h, n)
				if buffered && !fs.dflush[h] {
					fs.dirty[h] = n
				}
				if m == "ReadFrom" {
					fs.wrote[h] = true
					break
				}
				if literal(st, n.Args[1]) {
					if fs.wrote[h] && !inLoop(n) {
						if sl := st.res(n.Args[1]); sl.Op == OSlice {
							fail(n, "writes a fixed prefix after the content")
						}
					}
					break
				}
				fs.wrote[h] = true
				whole(st, n, n.Args[1])
			case "Read":
				if fs.closed[h] {
					fail(n, "reads from a handle that is closed already")
				}
				if rd := fs.pending[h]; rd != nil {
					fail(rd, "bytes that were read are not kept before the next read")
				}
				c := n.canon()
				fs.pending[h], fs.last[h] = c, c
				delete(fs.eof, h)
				if mk := lostGrowth(all, reads[c].base, n.Blk); mk != nil {
					for _, a := range all {
						if a.Op == OReturn {
							for _, q := range a.Args {
								if sameBuf(q, reads[c].base) {
									fail(n, "the bytes read so far are lost where a new buffer is made (%s)", p.pos(mk.Pos))
								}
							}
						}
					}
				}
				if k := reads[c]; k.lo == nil && inLoop(n) {
					// reading to the start of a buffer again and again: is the buffer itself the data?
					for _, a := range all {
						if a.Op == OReturn {
							for _, q := range a.Args {
								if sameBuf(q, k.base) {
									fail(n, "every read overwrites the bytes of the one before")
								}
							}
						}
					}
				}
			}
		case OStore:
			// a handle kept in memory that the analysis does not follow
			if c, _ := handleOf(st, n.Args[1], 0); c != nil && n.Args[0].canon().Op != OAlloc {
				delete(fs.open, c)
				fs.lost[c] = true
			}
		case OReturn:
			errNil := 1
			var ret *Node
			for _, a := range n.Args {
				if a.Typ != nil && isErrorType(a.Typ) {
					ret = st.res(a)
					errNil = isNil(st, a)
				}
				if c, _ := handleOf(st, a, 0); c != nil {
					delete(fs.open, c)
					fs.lost[c] = true
				}
			}
			for h := range fs.open {
				if e := errOf[h]; e != nil && isNil(st, e) == -1 {
					continue
				}
				fail(h, "the file is not closed on the path that returns at %s", p.pos(n.Pos))
			}
			if errNil == -1 {
				break
			}
			for h, w := range fs.dirty {
				if e := errOf[h]; e == nil || isNil(st, e) != -1 {
					fail(w, "buffered content is never flushed on the path that returns at %s", p.pos(n.Pos))
				}
			}
			for _, h := range opens {
				if _, used := fs.open[h]; !seen[h] && !used {
					continue
				}
				if e := errOf[h]; e == nil || isNil(st, e) == -1 || ret != nil && ret == e {
					continue
				} else if isNil(st, e) == 0 || fs.lost[h] {
					continue // not opened on this path
				}
				if h.Callee.Name() == "Open" {
					if rd := fs.last[h]; rd != nil {
						if p1 := fs.pending[h]; p1 != nil && cntOf[p1] != nil && st.val(cntOf[p1]).hi > 0 {
							fail(p1, "bytes that were read are not part of what is returned at %s", p.pos(n.Pos))
						}
						if !fs.eof[h] && !atEOF(st, rd) {
							fail(rd, "the function can succeed (at %s) before the end of the file is reached", p.pos(n.Pos))
						}
					}
					continue
				}
				if !fs.wrote[h] {
					empty := false
					for _, l := range lens {
						if st.val(l).hi <= 0 {
							empty = true
						}
					}
					if !empty {
						fail(h, "the function can succeed (at %s) without writing the content", p.pos(n.Pos))
					}
				}
			}
		}
		return true
	}
	fl.run()
	if fl.Too {
		fc.r.Counts["too_large"]++
		return
	}
	for n := range seen {
		if bad[n] == "" {
			fc.r.count("file_operations")
		}
	}
	var ns []*Node
	for n := range bad {
		ns = append(ns, n)
	}
	sortNodes(ns)
	for _, n := range ns {
		fc.r.count("file_operations")
		fc.r.bad(p, "file-typestate", n.Pos, n.Frame.chain(p), "%s", bad[n])
	}
}

// lostGrowth: inside the reading loop the buffer is replaced by a new one that gets no copy of the old content.
func lostGrowth(all []*Node, b *Node, at *Block) *Node {
	if at == nil || at.loop == nil {
		return nil
	}
	seen := map[*Node]bool{}
	var found *Node
	var walk func(x *Node)
	walk = func(x *Node) {
		x = x.canon()
		if seen[x] || found != nil {
			return
		}
		seen[x] = true
		switch x.Op {
		case OSlice, OChangeType, OConvert:
			walk(x.Args[0])
		case OPhi:
			for _, a := range x.Args {
				walk(a)
			}
		case OBuiltin:
			if x.Name == "append" && len(x.Args) == 2 {
				if m := x.Args[0].canon(); m.Op == OMakeSlice || m.IsNil {
					walk(x.Args[1])
				} else {
					walk(x.Args[0])
				}
			}
		case OMakeSlice:
			if x.Blk == nil || !at.loop.Blocks[x.Blk] {
				return
			}
			for _, n := range all {
				if n.Op == OBuiltin && n.Name == "copy" && sameBuf(n.Args[0], x) {
					return
				}
			}
			found = x
		}
	}
	walk(b)
	return found
}

func isHandleType(t types.Type) bool {
	s := strings.TrimLeft(types.TypeString(t, nil), "*")
	return s == "os.File" || s == "bufio.Writer" || strings.HasPrefix(s, "io.")
}

// callsClose: the (deferred) closure closes a file.
func callsClose(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() && c.Common().Method.Name() == "Close" {
					return true
				}
				if g := c.Common().StaticCallee(); g != nil && g.Name() == "Close" {
					return true
				}
			}
		}
	}
	return false
}

// sameBuf: q is (a part of, or a join with) the buffer b.
func sameBuf(q, b *Node) bool {
	seen := map[*Node]bool{}
	var walk func(x *Node) bool
	walk = func(x *Node) bool {
		x = x.canon()
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		switch x.Op {
		case OSlice, OChangeType, OConvert:
			return walk(x.Args[0])
		case OPhi:
			for _, a := range x.Args {
				if walk(a) {
					return true
				}
			}
		}
		return false
	}
	return walk(q)
}

func isSentinel(n *Node) bool {
	n = n.canon()
	return strings.Contains(n.String(), "EOF") || n.Op == OInit && strings.HasPrefix(n.Name, "global ") && strings.HasSuffix(n.Name, "EOF") || n.Op == OLoad && n.Args[0].canon().Op == OGlobal && strings.HasSuffix(n.Args[0].canon().Name, "EOF")
}

func (c *Check) files() *Result {
	r := newResult()
	r.Min = 2
	r.Rules = []string{
		"a handle that is written to comes from a call that opens for writing, creates the file if needed, and drops its old content",
		"after a successful open, every path to a return closes the handle (directly, deferred) or hands it on",
		"every path on which a saving function may succeed writes the content, as a whole (no constant cut at either end, except the type byte of an extension), after any fixed prefix, and flushes buffers before the close",
		"every path on which a reading function may succeed has seen the end of the file, and every read's bytes were kept at the position where they belong",
	}
	p := c.P
	fc := &fileChk{p, r}
	small, big := inlineUpTo(40), inlineUpTo(400)
	us := p.units(func(ir *IR, g *ssa.Function, depth int, stack []*ssa.Function) bool {
		if small(ir, g, depth, stack) {
			return true
		}
		sig := g.Signature
		for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
			for i := 0; i < t.Len(); i++ {
				if isHandleType(t.At(i).Type()) {
					return big(ir, g, depth, stack)
				}
			}
		}
		return false
	})
	for _, u := range us {
		fc.unit(u)
	}
	return r
}
