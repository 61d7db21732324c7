package main

import (
	"fmt"
	"go/constant"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: what is written for a value as JSON is one well-formed JSON value.
//
// Each slice of output carries, instead of its bytes, the state of a pushdown automaton for JSON that has read them:
// the brackets that are open and what may follow. At a loop's head the states of the rounds meet (there are few).

func init() {
	register("C16", (*Check).jsonOutput)
}

// jstate: open brackets, and what comes next:
//
//	V a value     W a value or ]     O a key or }     K a key     C a colon     E , or a closing bracket, or the end
//	S in a string that is a value     s in a key     T t  the same, behind a backslash
//	N in a number     L… in true, false or null, of which … is missing
type jstate string

func (s jstate) split() (string, string) {
	t := string(s)
	i := 0
	for i < len(t) && (t[i] == '{' || t[i] == '[') {
		i++
	}
	return t[:i], t[i:]
}

func (s jstate) words() string {
	st, m := s.split()
	in := ""
	if st != "" {
		in = " inside " + st
	}
	switch m[0] {
	case 'V':
		return "a value is still missing" + in
	case 'W':
		return "[ is open" + in
	case 'O':
		return "{ is open" + in
	case 'K':
		return "a key is missing behind a comma" + in
	case 'C':
		return "a colon is missing behind a key" + in
	case 'E':
		if st == "" {
			return "the value is complete"
		}
		return "a comma or closing bracket is missing" + in
	case 'S', 's', 'T', 't':
		return "a string is open" + in
	case 'N':
		return "a number" + in
	}
	return "a literal is incomplete" + in
}

func after(st string) jstate { return jstate(st + "E") }

// feed: the state behind one more byte; what is wrong with it.
func (s jstate) feed(c byte) (jstate, string) {
	st, m := s.split()
	no := func() (jstate, string) {
		return s, fmt.Sprintf("%q is written where %s", string(rune(c)), s.words())
	}
	ws := c == ' ' || c == '\t' || c == '\r' || c == '\n'
	switch m[0] {
	case 'S', 's':
		switch {
		case c == '"':
			if m[0] == 'S' {
				return after(st), ""
			}
			return jstate(st + "C"), ""
		case c == '\\':
			return jstate(st + string(m[0]+1)), ""
		case c < 0x20:
			return s, "a control character is written into a string"
		}
		return s, ""
	case 'T', 't':
		if strings.IndexByte("\"\\/bfnrtu", c) < 0 {
			return no()
		}
		return jstate(st + string(m[0]-1)), ""
	case 'L':
		if c != m[1] {
			return no()
		}
		if len(m) == 2 {
			return after(st), ""
		}
		return jstate(st + "L" + m[2:]), ""
	case 'N':
		if c >= '0' && c <= '9' || strings.IndexByte(".eE+-", c) >= 0 {
			return s, ""
		}
		return after(st).feed(c)
	}
	if ws {
		return s, ""
	}
	switch m[0] {
	case 'W':
		if c == ']' {
			return after(st[:len(st)-1]), ""
		}
		fallthrough
	case 'V':
		switch {
		case c == '"':
			return jstate(st + "S"), ""
		case c == '{':
			return jstate(st + "{O"), ""
		case c == '[':
			return jstate(st + "[W"), ""
		case c == 't':
			return jstate(st + "Lrue"), ""
		case c == 'f':
			return jstate(st + "Lalse"), ""
		case c == 'n':
			return jstate(st + "Lull"), ""
		case c == '-' || c >= '0' && c <= '9':
			return jstate(st + "N"), ""
		}
	case 'O':
		if c == '}' {
			return after(st[:len(st)-1]), ""
		}
		fallthrough
	case 'K':
		if c == '"' {
			return jstate(st + "s"), ""
		}
	case 'C':
		if c == ':' {
			return jstate(st + "V"), ""
		}
	case 'E':
		if st == "" {
			return no()
		}
		top := st[len(st)-1]
		switch {
		case c == ',' && top == '{':
			return jstate(st + "K"), ""
		case c == ',' && top == '[':
			return jstate(st + "V"), ""
		case c == '}' && top == '{', c == ']' && top == '[':
			return after(st[:len(st)-1]), ""
		}
	}
	return no()
}

func (s jstate) complete() bool { return s == "E" || s == "N" }

func (c *Check) jsonOutput() *Result {
	r := newResult()
	r.Min = 20
	r.Rules = []string{
		"for each function that writes a value as JSON and each type of value (and none), on each path the pieces appended - constant bytes, digits, text, recursive values - are read by a pushdown automaton for JSON: at each return one value is complete, of a kind that the type has in JSON, and nothing is open; no piece stands where the grammar does not allow it",
		"text of a string value is written as it stands only where no escaping is asked for, or where it is still escaped as parsed; text that is still escaped is not escaped again",
		"a floating-point number is written as digits only where NaN and infinities are ruled out",
		"the loop over the members or elements takes each of them, and each round writes something",
	}
	r.Assumptions = []string{"DxCommonLib.EscapeJsonbyte escapes what JSON demands, and Bin2Hex and time.Format with the constant layouts give no quotes or control characters", "keys: whether they are escaped is C18's"}
	p := c.P
	if p.mods == nil {
		p.computeMods()
	}
	through := map[*ssa.Function]bool{}
	for round := 0; round < 6; round++ {
		again := false
		var rs []*jsonEnc
		for _, f := range p.encoders("json") {
			if through[f] {
				continue
			}
			j := &jsonEnc{encoding: &encoding{p: p, r: newResult(), f: f, rule: "json output", through: through}, open: map[*ssa.Function]bool{}}
			if !j.build(900) {
				continue
			}
			for _, b := range j.ir.Blocks {
				for _, n := range b.Nodes {
					if isExtFn(n, "math.IsNaN", "math.IsInf") {
						j.live.Keep(n.canon())
					}
				}
			}
			for i, q := range f.Params {
				if tname(q.Type()) == "JsonEscapeStyle" {
					j.live.Keep(j.ir.Params[i].canon())
				}
			}
			j.run()
			rs = append(rs, j)
		}
		for _, j := range rs {
			for g := range j.open {
				if !through[g] {
					through[g], again = true, true
				}
			}
			if apiName(j.f) == "" && len(j.said) > 0 && !through[j.f] && len(p.callers[j.f]) > 0 {
				through[j.f], again = true, true // perhaps meant to write a part of a value: judged where it is called
			}
		}
		if again {
			continue
		}
		for _, j := range rs {
			r.Functions[fnName(j.f)] = true
			for k, v := range j.r.Counts {
				for i := 0; i < v; i++ {
					r.count(k)
				}
			}
			for _, s := range j.r.Samples {
				r.sample(s)
			}
			for _, v := range j.said {
				v(r)
			}
		}
		break
	}
	return r
}

type jsonEnc struct {
	*encoding
	open map[*ssa.Function]bool // called where no value may stand
	ends int
	good int
	seen map[string]bool
	said []func(r *Result)
	tn   string
}

func (j *jsonEnc) say(n *Node, f string, a ...interface{}) {
	if j.fl.unsure() {
		return
	}
	m := fmt.Sprintf(f, a...)
	if j.seen[m+fmt.Sprint(n.Pos)] {
		return
	}
	j.seen[m+fmt.Sprint(n.Pos)] = true
	fn := fnName(j.f)
	if n.Frame != nil {
		fn = n.Frame.chain(j.p)
	}
	if j.tn != "" {
		m = j.tn + ": " + m
	}
	pos := n.Pos
	j.said = append(j.said, func(r *Result) { r.bad(j.p, "json output", pos, fn, "%s", m) })
}

func jseg(s jstate, n *Node) []seg {
	return []seg{{kind: "json", id: string(s), pos: n.Pos, frm: n.Frame, node: n}}
}

// stateOf: what the output so far is.
func stateOf(ss []seg) (jstate, []seg, bool) {
	if len(ss) == 0 {
		return "V", nil, true
	}
	if ss[0].kind == "json" {
		return jstate(ss[0].id), ss[1:], true
	}
	return "V", ss, true
}

func (j *jsonEnc) run() {
	p, ir, r := j.p, j.ir, j.r
	j.seen = map[string]bool{}
	vt := p.valueTypes()
	var names []string
	for n := range vt {
		names = append(names, n)
	}
	sort.Slice(names, func(a, b int) bool { return vt[names[a]] < vt[names[b]] })
	isType := func(n *Node) bool {
		if n.Op != OLoad || n.Typ == nil || tname(n.Typ) != "ValueType" {
			return false
		}
		l := ir.loc(n.Args[0])
		return l.Root != nil && l.Class == "DxValue.DataType" && l.Root.canon() == j.val
	}
	asks := false
	for _, b := range ir.Blocks {
		for _, n := range b.Nodes {
			asks = asks || isType(n)
		}
	}
	if !asks {
		names = []string{""}
	}
	covs := map[*Block]*Cover{}
	for _, cv := range ir.covers() {
		if cv.Slice == nil {
			continue
		}
		if c, _ := ir.sliceField(cv.Slice); c == "VObject.strkvs" || c == "DxValue.farr" {
			if old := covs[cv.Loop.Header]; old == nil || !old.Full {
				covs[cv.Loop.Header] = cv
			}
		}
	}
	j.heads = covs
	for _, tn := range names {
		if o := os.Getenv("DXT"); o != "" && o != tn {
			continue
		}
		j.tn = tn
		init := newEncState(j.encoding)
		init.outs[j.dst] = nil
		init.json = j
		fl := &Flow{IR: ir, Max: 64, Init: init, live: j.live.live, consts: j.live.consts, counted: j.live.counted, Limit: 60000}
		j.fl = fl
		fl.Step = func(st *FState, n *Node) bool {
			if tn != "" && isType(n) {
				st.C.(*encState).aux["typed"] = "1"
				return st.set(n, AV{lo: vt[tn], hi: vt[tn]})
			}
			if n.Op == OBin {
				aux := st.C.(*encState).aux
				if v := aux["next"+fmt.Sprint(n.ID)]; v != "" {
					delete(aux, "next"+fmt.Sprint(n.ID))
					return st.set(n, boolAV(v == "1"))
				}
			}
			if n.Op == OReturn {
				j.ret(st, n)
				return false
			}
			j.one(st, n)
			return true
		}
		fl.run()
		r.count("types of value analysed")
		if fl.Too {
			r.count("types with too many paths")
		}
	}
	j.tn = ""
	for _, cv := range covs {
		r.count("loops over the content")
		if !cv.Full && cv.Why != "" && cv.Why != "has a bound that is not a length" && j.wrote[cv.Loop.Header] {
			j.fl = &Flow{IR: ir}
			n := posIn(cv.Loop.Header)
			j.say(n, "not every member or element is written: the loop %s", cv.Why)
		}
	}
}

func (j *jsonEnc) ret(st *FState, n *Node) {
	if len(n.Args) == 0 {
		return
	}
	if j.fl.unsure() {
		j.r.count("joined paths, not judged")
		return
	}
	es := st.C.(*encState)
	ss, ok := es.outs[st.res(n.Args[0])]
	if os.Getenv("DXDEBUG") != "" {
		fmt.Println("RET", j.f.Name(), j.tn, j.p.pos(n.Pos), ok, segsKey(ss))
	}
	if !ok {
		j.r.count("paths not followed")
		return
	}
	s, rest, ok := stateOf(ss)
	if !ok || len(rest) > 0 {
		j.r.count("paths not followed")
		return
	}
	j.ends++
	j.r.count("returns judged")
	if s.complete() {
		j.good++
		if t, want := es.aux["token"], jsonTokens[j.tn]; want != "" && tokenNames[t] != "" && es.aux["typed"] != "" {
			j.r.count("kinds of token judged")
			if !strings.Contains(want, t) {
				j.say(n, "%s is written for it", tokenNames[t])
			}
		}
		return
	}
	if s == "V" {
		j.say(n, "nothing is written on a path to this return")
		return
	}
	j.say(n, "the output ends where %s", s.words())
}

// one step: what is appended is read by the automaton.
func (j *jsonEnc) one(st *FState, n *Node) {
	es := st.C.(*encState)
	w := j.wire(st)
	if n.Op == OCall && n.Callee != nil && n.Typ != nil && isByteSlice(n.Typ) {
		// what a library function appends
		if _, _, rec := j.isRec(n); !rec && !j.p.internal(n.Callee) {
			for _, a := range n.Args {
				if a.Typ == nil || !isByteSlice(a.Typ) {
					continue
				}
				j.fresh(st, w, a, n)
				old, ok := es.outs[st.res(a)]
				if !ok {
					continue
				}
				es.outs[n] = append(append([]seg{}, old...), seg{kind: "call", id: fmt.Sprint(n.ID), node: n, pos: n.Pos, frm: n.Frame})
				j.read(st, w, n)
				return
			}
		}
	}
	if n.Op == OStore {
		if a := st.res(n.Args[0]); a.Op == OIndexAddr {
			x := st.res(a.Args[0])
			for x.Op == OSlice {
				x = st.res(x.Args[0])
			}
			if ss := es.outs[x]; len(ss) > 0 {
				delete(es.outs, x) // what was written is changed
			}
		}
	}
	if d, _, ok := j.isRec(n); ok {
		j.fresh(st, w, d, n)
	}
	j.step(st, n)
	switch n.Op {
	case OBuiltin, OCall:
		if n.Op == OBuiltin && n.Name != "append" || n.Typ == nil || !isByteSlice(n.Typ) {
			return
		}
		if _, ok := es.outs[n]; ok {
			j.read(st, w, n)
		}
	}
}

// fresh: an empty slice is empty output.
func (j *jsonEnc) fresh(st *FState, w *wire, x, at *Node) {
	es := st.C.(*encState)
	x = st.res(x)
	if _, ok := es.outs[x]; ok {
		return
	}
	if x.Op == OConst && x.IsNil || (x.Op == OMakeSlice || x.Op == OSlice) && len(j.content(w, x, at, 0)) == 0 {
		es.outs[x] = nil
	}
}

func (j *jsonEnc) read(st *FState, w *wire, n *Node) {
	es := st.C.(*encState)
	s, rest, _ := stateOf(es.outs[n])
	if len(rest) == 0 {
		es.outs[n] = jseg(s, n)
		return
	}
	delete(es.outs, n)
	es.aux["wrote"] = "1"
	for _, g := range rest {
		var bad string
		var ok bool
		was := s
		s, bad, ok = j.piece(st, w, s, g, n)
		if was == "V" && s != was {
			t := string(s[0])
			switch {
			case t == "E":
				t = "?"
			case t == "L":
				t = map[byte]string{'r': "t", 'a': "f", 'u': "n"}[s[1]]
			}
			es.aux["token"] = t
		}
		if bad != "" {
			j.say(n, "%s", bad)
		}
		if !ok || bad != "" {
			if os.Getenv("DXDEBUG") != "" {
				fmt.Println("LOST", j.f.Name(), j.tn, j.p.pos(n.Pos), g.String(), s, bad)
			}
			j.r.count("pieces not followed")
			return
		}
		j.r.count("pieces read")
	}
	es.outs[n] = jseg(s, n)
}

// value: a whole value at once.
func (s jstate) value() (jstate, bool) {
	st, m := s.split()
	if m[0] == 'V' || m[0] == 'W' {
		return after(st), true
	}
	return s, false
}

func (s jstate) inText() bool {
	_, m := s.split()
	return m[0] == 'S' || m[0] == 's'
}

func (j *jsonEnc) piece(st *FState, w *wire, s jstate, g seg, at *Node) (jstate, string, bool) {
	number := func() (jstate, string, bool) {
		if s.inText() {
			return s, "", true
		}
		base, m := s.split()
		if m[0] == 'V' || m[0] == 'W' || m[0] == 'N' {
			return jstate(base + "N"), "", true
		}
		return s, "a number is written where " + s.words(), false
	}
	text := func(what string) (jstate, string, bool) {
		if s.inText() {
			return s, "", true
		}
		return s, what + " is written where " + s.words(), false
	}
	switch g.kind {
	case "byte":
		x := &encCtx{e: j.encoding, st: st, w: w, kb: j.knownBits(st), say: func(s seg, f string, a ...interface{}) {}}
		c, ok := x.constByte(g)
		if !ok {
			if s.inText() {
				j.r.count("computed bytes in strings")
				return s, "", true
			}
			return s, "", false
		}
		n, bad := s.feed(byte(c))
		return n, bad, bad == ""
	case "rec":
		if n, ok := s.value(); ok {
			return n, "", true
		}
		if g.node != nil {
			for _, f := range j.p.Funcs {
				if fnName(f) == g.id && apiName(f) == "" {
					j.open[f] = true
					return s, "", false
				}
			}
		}
		return s, "a value is written where " + s.words(), false
	case "json":
		// what was put together elsewhere
		if jstate(g.id).complete() {
			if n, ok := s.value(); ok {
				return n, "", true
			}
		}
		return s, "", false
	case "call":
		c := g.node
		switch {
		case isExtFn(c, "strconv.AppendInt", "strconv.AppendUint"):
			if b, ok := st.val(c.Args[2]).exact(); ok && b != 10 && !s.inText() {
				return s, fmt.Sprintf("a number is written to base %d", b), false
			}
			return number()
		case isExtFn(c, "strconv.AppendFloat"):
			return j.float(st, s, c, c.Args[1], c.Args[2], number)
		case isExtFn(c, "strconv.AppendBool"):
			if n, ok := s.value(); ok {
				return n, "", true
			}
			return text("true or false")
		case strings.HasPrefix(c.Callee.Name(), "AppendQuote"):
			return s, "a text is quoted by Go's rules (\\x and \\a are no JSON)", false
		case strings.Contains(strings.ToLower(c.Callee.Name()), "escape"):
			for _, a := range c.Args {
				if a.Typ != nil && isString(a.Typ) && j.tn == "VT_RawString" && j.isText(st, a) {
					return s, "text that is still escaped as it was parsed is escaped again", false
				}
			}
			return text("text")
		case isExtFn(c, "(time.Time).AppendFormat"):
			return text("a time")
		}
		return s, "", s.inText()
	case "bytes", "?":
		x := g.node
		if x == nil {
			return s, "", false
		}
		x = st.res(x)
		for x.Op == OConvert || x.Op == OCall && x.Callee != nil && (x.Callee.Name() == "FastByte2String" || x.Callee.Name() == "FastString2Byte") {
			x = st.res(x.Args[0])
		}
		if j.isText(st, x) && s.inText() {
			if j.tn == "VT_String" && !j.noEscape(st) {
				return s, "a text is written as it stands although escaping may be asked for on this path", false
			}
			return s, "", true
		}
		if j.isText(st, x) {
			return text("text")
		}
		if j.fieldOf(st, x) == "DxValue.fbinary" {
			return s, "the bytes of a binary are written as they are", false
		}
		if x.Op == OCall && x.Callee != nil {
			switch {
			case isExtFn(x, "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint"):
				if len(x.Args) > 1 {
					if b, ok := st.val(x.Args[1]).exact(); ok && b != 10 && !s.inText() {
						return s, fmt.Sprintf("a number is written to base %d", b), false
					}
				}
				return number()
			case isExtFn(x, "strconv.FormatFloat"):
				return j.float(st, s, x, x.Args[0], x.Args[1], number)
			case isExtFn(x, "strconv.FormatBool"):
				if n, ok := s.value(); ok {
					return n, "", true
				}
				return text("true or false")
			case isExtFn(x, "strconv.Quote", "strconv.QuoteToASCII"):
				return s, "a text is quoted by Go's rules (\\x and \\a are no JSON)", false
			case isExtFn(x, "(time.Time).Format") || x.Callee.Name() == "Bin2Hex":
				return text("text")
			case isExtFn(x, "strings.Repeat"):
				if k := st.res(x.Args[0]); k.Op == OConst && k.Const != nil && k.Const.Kind() == constant.String && strings.TrimSpace(constant.StringVal(k.Const)) == "" && !s.inText() {
					return s, "", true
				}
			}
		}
		return s, "", s.inText()
	}
	return s, "", false
}

func (j *jsonEnc) fieldOf(st *FState, x *Node) string {
	x = st.res(x).canon()
	for x.Op == OSlice {
		x = st.res(x.Args[0]).canon()
	}
	switch {
	case x.Op == OLoad:
		return j.ir.loc(x.Args[0]).Class
	case x.MemLoc != nil:
		return x.MemLoc.Class
	}
	return ""
}

func (j *jsonEnc) isText(st *FState, x *Node) bool { return j.fieldOf(st, x) == "DxValue.fstrvalue" }

// noEscape: no escaping is asked for on this path.
func (j *jsonEnc) noEscape(st *FState) bool {
	any := false
	for i, q := range j.f.Params {
		if tname(q.Type()) == "JsonEscapeStyle" {
			any = true
			if v, ok := st.val(j.ir.Params[i].canon()).exact(); ok {
				if k, ok := j.p.intConst("JSE_NoEscape"); ok && k == v {
					return true
				}
			}
		}
	}
	return !any
}

// float: digits of a floating-point number.
func (j *jsonEnc) float(st *FState, s jstate, c, x, format *Node, number func() (jstate, string, bool)) (jstate, string, bool) {
	if s.inText() {
		return s, "", true
	}
	if f, ok := st.val(format).exact(); ok && strings.IndexByte("eEfgG", byte(f)) < 0 {
		return s, fmt.Sprintf("a number is written in the format %q, which is no JSON", rune(f)), false
	}
	strip := func(n *Node) *Node {
		n = st.res(n)
		for n.Op == OConvert && len(n.Args) == 1 {
			n = st.res(n.Args[0])
		}
		return n.canon()
	}
	v := strip(x)
	if v.Typ != nil && isIntType(v.Typ) || v.Op == OConst {
		return number()
	}
	nan, inf, other := false, 0, false
	for _, b := range j.ir.Blocks {
		for _, n := range b.Nodes {
			switch {
			case isExtFn(n, "math.IsNaN"):
				if strip(n.Args[0]) == v {
					if k, ok := st.val(n).exact(); ok && k == 0 {
						nan = true
					}
				}
			case isExtFn(n, "math.IsInf"):
				if strip(n.Args[0]) == v {
					if k, ok := st.val(n).exact(); ok && k == 0 {
						switch d, ok := st.val(n.Args[1]).exact(); {
						case ok && d == 0:
							inf |= 3
						case ok && d > 0:
							inf |= 1
						case ok:
							inf |= 2
						}
					}
				}
			case n.Op == OBin && len(n.Args) == 2 && isBoolNode(n) && (strip(n.Args[0]) == v || strip(n.Args[1]) == v):
				other = true
			case n.Op == OCall && n.Callee != nil && !j.p.internal(n.Callee) && strings.HasPrefix(n.Callee.String(), "math.") && len(n.Args) > 0 && strip(n.Args[0]) == v && !strings.HasPrefix(n.Callee.Name(), "Is"):
				other = true
			}
		}
	}
	if other {
		j.r.count("numbers guarded in another way")
		return number()
	}
	if !nan {
		return s, "a floating-point number that may be NaN is written as digits", false
	}
	if inf != 3 {
		return s, "a floating-point number that may be infinite is written as digits", false
	}
	j.r.count("floating-point numbers judged")
	return number()
}

// reenter: the loop's head takes the state of what the round left.
func (j *jsonEnc) reenter(s *encState, st *FState, gone func(*Node) bool, phis map[*Node]*Node) {
	news := map[*Node][]seg{}
	back := false
	var head *Block
	for phi, v := range phis {
		if phi.Typ == nil {
			continue
		}
		if phi.Blk != nil && phi.Blk.isLoopHeader() {
			head = phi.Blk
			back = back || gone(phi)
		}
		if !isByteSlice(phi.Typ) {
			continue
		}
		if x, ok := s.outs[v]; ok {
			news[phi] = x
			if gone(phi) && !gone(v) {
				news[v] = x
			}
		}
	}
	if back && len(head.Nodes) > 0 {
		// what the round knew of whether there is another one
		iff := head.Nodes[len(head.Nodes)-1]
		if t := j.trips[iff]; t != nil && !t.down {
			for phi, v := range phis {
				if phi.Op != OPhi || phi.Blk != head || !gone(phi) {
					continue
				}
				if k, ok := stepOf(v, phi); !ok || k != 1 {
					continue
				}
				lo, hi := st.diffBounds(v, func(n *Node) bool { return n == t.bound || n == st.res(t.bound) })
				c := iff.Args[0].canon()
				off := t.off - t.plus
				switch {
				case hi != inf && hi+off < 0:
					s.aux["next"+fmt.Sprint(c.ID)] = b01(t.in)
				case lo != math.MinInt64 && lo+off >= 0:
					s.aux["next"+fmt.Sprint(c.ID)] = b01(!t.in)
				}
			}
		}
	}
	if head != nil && j.heads[head] != nil {
		if back && s.aux["wrote"] == "" && j.wrote[head] && len(news) > 0 {
			j.say(posIn(head), "a member or element is left out: a round of the loop writes nothing")
		}
		if back && s.aux["wrote"] != "" {
			if j.wrote == nil {
				j.wrote = map[*Block]bool{}
			}
			j.wrote[head] = true
		}
		delete(s.aux, "wrote")
	}
	for n := range s.outs {
		if gone(n) {
			delete(s.outs, n)
		}
	}
	for n := range s.cells {
		if gone(n) {
			delete(s.cells, n)
		}
	}
	for n, x := range news {
		s.outs[n] = x
	}
}

// posIn: a node of the block that has a position.
func posIn(b *Block) *Node {
	for _, n := range b.Nodes {
		if n.Pos.IsValid() {
			return n
		}
	}
	return b.Nodes[0]
}

// jsonTokens: what the values of a type may be.
var jsonTokens = map[string]string{
	"VT_Object": "{", "VT_Array": "[", "VT_String": "S", "VT_RawString": "S", "VT_Int": "N", "VT_Float": "Nn", "VT_Double": "Nn", "VT_DateTime": "SN", "VT_Binary": "S{", "VT_ExBinary": "S{",
	"VT_NULL": "n", "VT_True": "t", "VT_False": "f", "VT_NAN": "nS", "VT_INF": "nS",
}

var tokenNames = map[string]string{"{": "an object", "[": "an array", "S": "a string", "N": "a number", "n": "null", "t": "true", "f": "false"}

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}
