package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// noErr follows only the executions in which no call reports an error.
func noErr(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
	if ci.fn != nil && e.w.inline(ci.fn) {
		return nil, false
	}
	return succeeded(e, ci, e.opaque0(st, ci)), true
}

// okAtoms: calls of the named functions become events, and only executions in
// which no call reports an error are followed.
func okAtoms(names ...string) Hook {
	at := atoms(names...)
	return func(e *Eng, st *State, ci *CallInfo) ([]CallRes, bool) {
		if rs, ok := at(e, st, ci); ok {
			return succeeded(e, ci, rs), true
		}
		return noErr(e, st, ci)
	}
}

func succeeded(e *Eng, ci *CallInfo, rs []CallRes) []CallRes {
	var live []CallRes
	for _, r := range rs {
		if r.val != nil {
			v := r.val
			if v.op == OpTuple {
				tup, _ := ci.typ.(*types.Tuple)
				for i, a := range v.args {
					if tup != nil && i < tup.Len() && isErrorType(tup.At(i).Type()) || isErrorType(a.typ) {
						r.st.assume(e.tt.eq(a, e.tt.Nil()), true)
					}
				}
			} else if isErrorType(v.typ) {
				r.st.assume(e.tt.eq(v, e.tt.Nil()), true)
			}
			r.val = r.st.canon(v)
		}
		if !r.st.dead {
			live = append(live, r)
		}
	}
	return live
}

// piece is a part of the output: literal text or one value.
type piece struct {
	text string
	val  *Term
	kind string // json, num, bytes (unknown contents)
}

// globalBytes is the constant content of a package variable that is never
// assigned again.
func (w *World) globalBytes(name string) (string, bool) {
	for _, f := range w.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, n := range vs.Names {
					if n.Name != name || i >= len(vs.Values) {
						continue
					}
					if !w.neverAssigned(name) {
						return "", false
					}
					return w.litBytes(vs.Values[i])
				}
			}
		}
	}
	return "", false
}

func (w *World) neverAssigned(name string) bool {
	g, ok := w.pkg.Members[name].(*ssa.Global)
	if !ok {
		return false
	}
	for _, f := range w.all {
		if f.Name() == "init" && f.Parent() == nil && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == g || x.Val == ssa.Value(g) {
						return false
					}
				case *ssa.IndexAddr:
					if u, ok := x.X.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						for _, r := range *x.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

func (w *World) litBytes(x ast.Expr) (string, bool) {
	if tv, ok := w.info.Types[x]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
		return constant.StringVal(tv.Value), true
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		return w.litBytes(x.X)
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			return w.litBytes(x.Args[0])
		}
	case *ast.CompositeLit:
		var b []byte
		for _, el := range x.Elts {
			tv, ok := w.info.Types[el]
			if !ok || tv.Value == nil {
				return "", false
			}
			n, ok := constant.Int64Val(constant.ToInt(tv.Value))
			if !ok {
				return "", false
			}
			b = append(b, byte(n))
		}
		return string(b), true
	}
	return "", false
}

// isNumber: the term is the decimal form of an integer.
func isNumber(t *Term) *Term {
	if t.op == OpApp {
		switch t.name {
		case "strconv.Itoa":
			return t.args[0]
		case "strconv.FormatInt", "strconv.FormatUint":
			if b, ok := t.args[1].constInt(); ok && b == 10 {
				return strip(t.args[0])
			}
		}
	}
	return nil
}

// pieces splits written bytes or text into literal text and values.
func (c *Ctx) jsonPieces(e *Eng, st *State, t *Term) ([]piece, bool) {
	t = st.canon(t)
	if s, ok := t.constStr(); ok {
		return []piece{{text: s}}, true
	}
	if t.isNil() {
		return nil, true
	}
	if n := isNumber(t); n != nil {
		return []piece{{val: n, kind: "num"}}, true
	}
	switch t.op {
	case OpInit:
		if t.args[0].op == OpGlobal {
			if s, ok := c.w.globalBytes(t.args[0].name); ok {
				return []piece{{text: s}}, true
			}
		}
	case OpIface:
		return c.jsonPieces(e, st, t.args[0])
	case OpApp:
		switch {
		case strings.HasPrefix(t.name, "conv:"):
			return c.jsonPieces(e, st, t.args[0])
		case t.name == "concat" || t.name == "appendslice":
			a, ok := c.jsonPieces(e, st, t.args[0])
			b, ok2 := c.jsonPieces(e, st, t.args[1])
			return append(a, b...), ok && ok2
		case (t.name == "strconv.AppendInt" || t.name == "strconv.AppendUint") && len(t.args) == 3:
			a, ok := c.jsonPieces(e, st, t.args[0])
			b, isK := t.args[2].constInt()
			return append(a, piece{val: strip(t.args[1]), kind: "num"}), ok && isK && b == 10
		case t.name == "append":
			a, ok := c.jsonPieces(e, st, t.args[0])
			for _, x := range t.args[1:] {
				n, k := x.constInt()
				ok = ok && k
				a = append(a, piece{text: string([]byte{byte(n)})})
			}
			return a, ok
		case t.name == "slicelit":
			n, ok := t.args[1].constInt()
			var r []piece
			et := sliceElem(t.typ)
			for i := int64(0); ok && i < n; i++ {
				v, k := st.load(e.tt.Elem(t.args[0], e.tt.Int(i), et), et).constInt()
				ok = ok && k
				r = append(r, piece{text: string([]byte{byte(v)})})
			}
			return r, ok
		case t.name == "makeslice":
			if n, ok := e.sliceLen(st, t).constInt(); ok && n == 0 {
				return nil, true
			}
		case t.name == "fmt.Sprint" && len(t.args) == 1:
			a := t.args[0]
			if a.op == OpIface && isInt(a.typ) {
				return []piece{{val: a.args[0], kind: "num"}}, true
			}
			return c.jsonPieces(e, st, a)
		case t.name == "fmt.Sprintf" && len(t.args) > 0:
			return c.formatPieces(e, st, t.args[0], t.args[1:])
		}
	case OpUnk:
		if cl := st.callOf(t); cl != nil && (cl.name == "encoding/json.Marshal" || cl.name == "encoding/json.MarshalIndent") && st.canon(cl.res.args[0]) == t {
			a := st.canon(cl.args[0])
			return []piece{{val: a, kind: "json"}}, true
		}
	}
	return []piece{{val: t, kind: "bytes"}}, false
}

func (c *Ctx) formatPieces(e *Eng, st *State, f *Term, args []*Term) ([]piece, bool) {
	s, ok := st.canon(f).constStr()
	if !ok {
		return nil, false
	}
	var r []piece
	all := true
	i := 0
	for len(s) > 0 {
		p := strings.IndexByte(s, '%')
		if p < 0 {
			r = append(r, piece{text: s})
			break
		}
		if p > 0 {
			r = append(r, piece{text: s[:p]})
		}
		if p+1 >= len(s) {
			return r, false
		}
		v := s[p+1]
		s = s[p+2:]
		if v == '%' {
			r = append(r, piece{text: "%"})
			continue
		}
		if i >= len(args) {
			return r, false
		}
		a := st.canon(args[i])
		i++
		if a.op != OpIface {
			return append(r, piece{val: a, kind: "bytes"}), false
		}
		switch {
		case (v == 'd' || v == 'v') && isInt(a.typ):
			r = append(r, piece{val: a.args[0], kind: "num"})
		case v == 's' || v == 'v' && isString(a.typ):
			q, ok := c.jsonPieces(e, st, a.args[0])
			all = all && ok
			r = append(r, q...)
		case v == 'q' && isString(a.typ):
			r = append(r, piece{val: st.canon(a.args[0]), kind: "quoted"})
			all = false
		default:
			return append(r, piece{val: a, kind: "bytes"}), false
		}
	}
	return r, all && i == len(args)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// variadic expands the arguments of a call.
func variadic(e *Eng, st *State, args []*Term) []*Term {
	if n := len(args); n > 0 {
		last := st.canon(args[n-1])
		if app(last, "slicelit") {
			r := append([]*Term(nil), args[:n-1]...)
			k, _ := last.args[1].constInt()
			et := sliceElem(last.typ)
			for i := int64(0); i < k; i++ {
				r = append(r, st.load(e.tt.Elem(last.args[0], e.tt.Int(i), et), et))
			}
			return r
		}
		if last.isNil() {
			return args[:n-1]
		}
	}
	return args
}

// output is what a call writes: ok=false if it gives the writer away in a way
// that is not understood.
func (c *Ctx) output(e *Eng, x *Ev, isOut func(t *Term) bool) (ps []piece, writes, ok bool) {
	if x.kind != EvCall {
		return nil, false, true
	}
	var uses []int
	for i, a := range x.args {
		if isOut(a) {
			uses = append(uses, i)
		}
	}
	if len(uses) == 0 {
		return nil, false, true
	}
	m := x.name
	if i := strings.LastIndex(m, "."); i >= 0 {
		m = m[i+1:]
	}
	recv := x.invoke || strings.HasPrefix(x.name, "(")
	switch {
	case uses[0] == 0 && recv && (m == "Write" || m == "WriteString") && len(x.args) == 2:
		ps, ok = c.jsonPieces(e, x.st, x.args[1])
		return ps, true, ok
	case uses[0] == 0 && recv && (m == "WriteByte" || m == "WriteRune"):
		if n, k := x.args[1].constInt(); k {
			return []piece{{text: string(rune(n))}}, true, true
		}
		return nil, true, false
	case x.name == "bufio.NewWriter" || x.name == "bufio.NewWriterSize":
		return nil, false, true
	case uses[0] == 0 && x.name == "io.WriteString":
		ps, ok = c.jsonPieces(e, x.st, x.args[1])
		return ps, true, ok
	case uses[0] == 0 && x.name == "fmt.Fprintf":
		a := variadic(e, x.st, x.args[1:])
		ps, ok = c.formatPieces(e, x.st, a[0], a[1:])
		return ps, true, ok
	case uses[0] == 0 && (x.name == "fmt.Fprint" || x.name == "fmt.Fprintln"):
		ok = true
		as := variadic(e, x.st, x.args[1:])
		if x.name == "fmt.Fprintln" {
			defer func() { ps = append(ps, piece{text: "\n"}) }()
			// operands are separated by spaces
			ok = len(as) < 2
		}
		for _, a := range as {
			a = x.st.canon(a)
			if a.op == OpIface && isInt(a.typ) {
				ps = append(ps, piece{val: a.args[0], kind: "num"})
				continue
			}
			q, k := c.jsonPieces(e, x.st, a)
			ps, ok = append(ps, q...), ok && k
		}
		return ps, true, ok
	case uses[0] == 0 && recv && (m == "Flush" || m == "Len" || m == "Grow" || m == "Bytes" || m == "String" || m == "Buffered" || m == "Available" || m == "Size"):
		return nil, false, true
	}
	return nil, true, false
}

// streams finds what stands for the writer out: out itself, or a buffer whose
// contents reach it.
func (c *Ctx) streams(e *Eng, out *Term) func(st *State) func(t *Term) bool {
	return func(st *State) func(t *Term) bool {
		return func(t *Term) bool {
			t = st.canon(t)
			for i := 0; i < 4; i++ {
				if t == out {
					return true
				}
				switch {
				case t.op == OpIface:
					t = st.canon(t.args[0])
				case t.op == OpUnk && st.callOf(t) != nil && strings.HasPrefix(st.callOf(t).name, "bufio.NewWriter"):
					t = st.canon(st.callOf(t).args[0])
				default:
					return false
				}
			}
			return false
		}
	}
}

// ---- the JSON text as a state machine ----

type jframe struct {
	arr   bool
	key   string
	phase int // obj: 0 key or end, 1 key, 2 in key, 3 colon, 4 value, 5 comma or end; arr: 0 value or end, 1 value, 5 comma or end
	seen  string
}

type jstate struct {
	st   []jframe
	done bool
	lit  string // scalar text under construction
	str  bool
}

func (s jstate) key() string {
	b, _ := json.Marshal(s.done)
	r := string(b) + "|" + s.lit + "|" + fmt.Sprint(s.str)
	for _, f := range s.st {
		r += fmt.Sprintf("/%v,%s,%d,%s", f.arr, f.key, f.phase, f.seen)
	}
	return r
}

func (s jstate) path() string {
	r := ""
	for _, f := range s.st {
		if f.arr {
			r += "[]"
		} else {
			if r != "" {
				r += "."
			}
			r += f.key
		}
	}
	return r
}

// wants: a value may start here.
func (s *jstate) wants() bool {
	if s.lit != "" || s.str || s.done {
		return false
	}
	if len(s.st) == 0 {
		return true
	}
	f := s.st[len(s.st)-1]
	if f.arr {
		return f.phase == 0 || f.phase == 1
	}
	return f.phase == 4
}

func (s *jstate) valued() {
	if len(s.st) == 0 {
		s.done = true
		return
	}
	s.st[len(s.st)-1].phase = 5
}

func (s jstate) copy() jstate {
	s.st = append([]jframe(nil), s.st...)
	return s
}

// value consumes one complete value.
func (s jstate) value() (jstate, string) {
	s = s.copy()
	if msg := s.endLit(); msg != "" {
		return s, msg
	}
	if !s.wants() {
		return s, "a value is written where none may follow"
	}
	if len(s.st) == 0 {
		return s, "the output is not an object"
	}
	s.valued()
	return s, ""
}

func (s *jstate) endLit() string {
	if s.lit == "" || s.str {
		return ""
	}
	if !json.Valid([]byte(s.lit)) {
		return fmt.Sprintf("%q is not a value", s.lit)
	}
	s.lit = ""
	s.valued()
	return ""
}

// text consumes literal text.
func (s jstate) text(t string) (jstate, string) {
	s = s.copy()
	for i := 0; i < len(t); i++ {
		ch := t[i]
		if s.str {
			s.lit += string(ch)
			if ch == '"' && !strings.HasSuffix(strings.ReplaceAll(s.lit[:len(s.lit)-1], `\\`, ""), `\`) {
				s.str = false
				if !json.Valid([]byte(s.lit)) {
					return s, fmt.Sprintf("%s is not a string", s.lit)
				}
				var v string
				json.Unmarshal([]byte(s.lit), &v)
				s.lit = ""
				if n := len(s.st); n > 0 && !s.st[n-1].arr && s.st[n-1].phase == 2 {
					f := &s.st[n-1]
					for _, k := range strings.Split(f.seen, "\x00") {
						if k == v && f.seen != "" {
							return s, fmt.Sprintf("the key %q is written twice in an object", v)
						}
					}
					f.key, f.phase = v, 3
					if f.seen != "" {
						f.seen += "\x00"
					}
					f.seen += v
				} else {
					s.valued()
				}
			}
			continue
		}
		if strings.ContainsRune(" \t\r\n", rune(ch)) {
			if msg := s.endLit(); msg != "" {
				return s, msg
			}
			continue
		}
		if strings.ContainsRune(",]}", rune(ch)) {
			if msg := s.endLit(); msg != "" {
				return s, msg
			}
		}
		n := len(s.st)
		bad := fmt.Sprintf("%q is written where it cannot follow", string(ch))
		switch ch {
		case '{', '[':
			if !s.wants() {
				return s, bad
			}
			if n == 0 && ch == '[' {
				return s, "the output is not an object"
			}
			if n > 6 {
				return s, "nested without end"
			}
			s.st = append(s.st, jframe{arr: ch == '['})
		case '}', ']':
			if n == 0 || s.st[n-1].arr != (ch == ']') || s.st[n-1].phase != 0 && s.st[n-1].phase != 5 {
				return s, bad
			}
			s.st = s.st[:n-1]
			s.valued()
		case ',':
			if n == 0 || s.st[n-1].phase != 5 {
				return s, bad
			}
			s.st[n-1].phase = 1
			s.st[n-1].key = ""
		case ':':
			if n == 0 || s.st[n-1].arr || s.st[n-1].phase != 3 {
				return s, bad
			}
			s.st[n-1].phase = 4
		case '"':
			if n > 0 && !s.st[n-1].arr && (s.st[n-1].phase == 0 || s.st[n-1].phase == 1) && s.lit == "" {
				s.st[n-1].phase = 2
				s.str, s.lit = true, `"`
			} else if s.wants() && n > 0 {
				s.str, s.lit = true, `"`
			} else {
				return s, bad
			}
		default:
			if s.lit == "" && (!s.wants() || n == 0) {
				return s, bad
			}
			s.lit += string(ch)
		}
	}
	return s, ""
}

// jrec: a value is written under a path.
type jrec struct {
	path string
	p    piece
	ev   Ev
	evs  []*Event
	segs []*LoopAt
}

type jwalk struct {
	c      *Ctx
	e      *Eng
	rule   string
	con    string
	out    func(st *State) func(t *Term) bool
	memo   map[string]map[string][]jstate
	recs   map[*Seg][]jrec
	top    []jrec
	paths  map[string]bool
	writes int
	seen   map[string]bool
	quiet  bool
	// loops in which something was written under a path
	bad map[string]bool
}

func (j *jwalk) fail(pos token.Pos, f string, a ...interface{}) {
	k := fmt.Sprint(pos, f, a)
	if j.bad[k] {
		return
	}
	j.bad[k] = true
	j.c.fail(j.rule, j.con, pos, f, a...)
}

// run drives the states through a trace.
func (j *jwalk) run(evs []*Event, st *State, in []jstate, segs []*LoopAt) []jstate {
	cur := in
	for i, ev := range evs {
		if ev.kind == EvLoop {
			var next []jstate
			have := map[string]bool{}
			for _, s := range cur {
				for _, t := range j.loop(ev.loop, s, segs)[ev.key] {
					if !have[t.key()] {
						have[t.key()] = true
						next = append(next, t)
					}
				}
			}
			cur = next
			continue
		}
		if ev.kind != EvCall {
			continue
		}
		x := mkEv(ev, st, nil, i)
		ps, w, ok := j.c.output(j.e, &x, j.out(st))
		if !w {
			continue
		}
		j.writes++
		if !ok {
			j.fail(ev.pos, "what %s writes is not known to be JSON", ev.name)
			return nil
		}
		j.c.pass(j.rule, fmt.Sprintf("%s write %s", j.con, j.c.w.pos(ev.pos)))
		for _, p := range ps {
			var next []jstate
			have := map[string]bool{}
			for _, s := range cur {
				var t jstate
				var msg string
				if p.val == nil {
					t, msg = s.text(p.text)
				} else {
					q := s.copy()
					if q.endLit() == "" {
						pth := q.path()
						j.paths[pth] = true
						r := jrec{path: pth, p: p, ev: x, evs: evs, segs: segs}
						k := fmt.Sprintf("%p %s %v", ev, pth, len(segs))
						if len(segs) > 0 {
							k += fmt.Sprintf(" %p", segs[len(segs)-1].seg)
						}
						if !j.seen[k] {
							j.seen[k] = true
							if len(segs) > 0 {
								sg := segs[len(segs)-1].seg
								j.recs[sg] = append(j.recs[sg], r)
							} else {
								j.top = append(j.top, r)
							}
						}
					}
					t, msg = s.value()
				}
				if msg != "" {
					j.fail(ev.pos, "%s", msg)
					continue
				}
				if !have[t.key()] {
					have[t.key()] = true
					next = append(next, t)
				}
			}
			cur = next
		}
	}
	return cur
}

// loop gives the states at each way out of a loop entered in state s.
func (j *jwalk) loop(l *Loop, s jstate, segs []*LoopAt) map[string][]jstate {
	mk := fmt.Sprintf("%p %s", l, s.key())
	if r, ok := j.memo[mk]; ok {
		return r
	}
	res := map[string][]jstate{l.entry: {s}}
	have := map[string]bool{l.entry + "#" + s.key(): true}
	j.memo[mk] = res
	type item struct {
		k string
		s jstate
	}
	work := []item{{l.entry, s}}
	for n := 0; len(work) > 0 && n < 5000; n++ {
		w := work[0]
		work = work[1:]
		for _, sg := range l.segs {
			if sg.from != w.k {
				continue
			}
			for _, t := range j.run(sg.events, sg.st, []jstate{w.s}, append(append([]*LoopAt(nil), segs...), &LoopAt{l, sg})) {
				k := sg.to + "#" + t.key()
				if have[k] {
					continue
				}
				have[k] = true
				res[sg.to] = append(res[sg.to], t)
				work = append(work, item{sg.to, t})
			}
		}
	}
	return res
}

// encodeRun interprets the encoder on executions without errors.
func (c *Ctx) encodeRun() (*Eng, []Outcome, *Term) {
	f := c.fn("JSON.Encode")
	var out *Term
	e, outs := c.runWith(f, func(e *Eng) { e.unroll = true }, hooks(stdModel, atoms("Graph.GetNodes", "Graph.GetEdges", "Node.GetEdges", "NodeSlice", "EdgeSlice"), noErr), func(e *Eng, st *State, args []*Term) {
		for _, a := range args {
			if a.typ != nil && typeKey(a.typ) == "io.Writer" {
				out = a
				st.nn[a] = true
			}
		}
	})
	if out == nil {
		panic(anchorErr("JSON.Encode has no io.Writer parameter"))
	}
	return e, outs, out
}

// encodeWalk runs the state machine over all executions.
func (c *Ctx) encodeWalk(rule string) (*jwalk, []Outcome) {
	e, outs, out := c.encodeRun()
	j := &jwalk{c: c, e: e, rule: rule, con: "JSON.Encode", out: c.streams(e, out),
		memo: map[string]map[string][]jstate{}, recs: map[*Seg][]jrec{}, paths: map[string]bool{}, seen: map[string]bool{}, bad: map[string]bool{}}
	for _, o := range outs {
		if o.panic || o.st.dead {
			continue
		}
		ok := len(o.ret) == 1 && o.st.canon(o.ret[0]).isNil()
		if !ok {
			continue // reports an error of its own
		}
		evs := o.st.tr.list()
		fin := j.run(evs, o.st, []jstate{{}}, nil)
		for _, s := range fin {
			s = s.copy()
			if msg := s.endLit(); msg != "" || !s.done {
				j.fail(c.fn("JSON.Encode").Pos(), "the encoder reports success with an unfinished document: at %q, depth %d", s.path(), len(s.st))
			} else {
				c.pass(rule, "JSON.Encode complete")
			}
		}
		// buffered output must be flushed
		buf, flush := -1, -1
		made, direct := false, false
		for i, x := range flat(o.st) {
			if x.kind != EvCall || len(x.args) == 0 {
				continue
			}
			if strings.HasPrefix(x.name, "bufio.NewWriter") {
				made = true
			} else if x.st.canon(x.args[0]) == out || x.args[0].op == OpIface && x.st.canon(x.args[0].args[0]) == out {
				direct = true
			}
			if strings.HasPrefix(x.name, "(*bufio.Writer).") {
				if strings.HasSuffix(x.name, "Flush") && len(x.path) == 0 {
					flush = i
				} else {
					buf = i
				}
			} else if strings.HasPrefix(x.name, "fmt.Fprint") || x.name == "io.WriteString" {
				if a := x.args[0]; a.op == OpIface && typeKey(a.typ) == "*bufio.Writer" {
					buf = i
				}
			}
		}
		if made && direct {
			j.fail(c.fn("JSON.Encode").Pos(), "output is written both directly and through a buffer")
		}
		if buf > flush {
			j.fail(c.fn("JSON.Encode").Pos(), "buffered output is not flushed")
		}
	}
	return j, outs
}

func (j *jwalk) pathList() []string {
	var r []string
	for p := range j.paths {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

func init() {
	reg("C17", "typestate of the JSON text over every execution of the encoder: each write is resolved to literal text (constants, package byte tables) or one complete value (json.Marshal result, decimal integer) and driven through a JSON automaton across loops", 3, func(c *Ctx) {
		j, _ := c.encodeWalk("json-automaton")
		c.ob("json-automaton", "writes", j.writes >= 20 && len(j.paths) >= 4, 0, "only %d writes and %d places for values found in the encoder", j.writes, len(j.paths))
		c.assume["json.Marshal returns one valid JSON value when it reports no error; the writer accepts everything when it reports no error"] = true
	})
}
