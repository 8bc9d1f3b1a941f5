package main

// Specification files: parsing and evaluation of specification expressions.

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type clause struct {
	expr  ast.Expr
	src   string
	label string
	named bool // the label is given in the specification
	props []string
	from  []string     // the quantified facts (by label) a first attempt uses
	loops map[int]bool // loops (in order) an invariant is meant for; others are not tried the first time
}

type Contract struct {
	name  string // function name plus instance
	fname string
	inst  map[string]string // interface parameter -> dynamic type
	lets  []struct {
		name string
		c    *clause
	}
	requires  []*clause
	ensures   []*clause
	modifies  []*clause
	decreases []*clause
	invs      []*clause
	lemmas    []*clause
	globals   []*clause
	theorems  []*theorem
	cuts      []*clause
	cutFn     string // cut after calls of this function ...
	cutFrom   string // ... once this one was called
	cutMax    int
	defs      []*clause
	givens    []string
	nilable   map[string]bool
	nomerge   bool
	focus     bool
	thin      map[string]map[string]bool // callee -> the postconditions used of it
	inline    bool                       // verified as a unit, but inlined at call sites
	noerr     bool
	alwaysErr bool
	noverify  bool
	pure      bool
	anyframe  bool
	needs     map[string]bool // property tags
	order     int
	unroll    map[string]bool
	timeout   int
}

type macro struct {
	params []string
	body   ast.Expr
	src    string
}

type SpecDB struct {
	byName   map[string][]*Contract
	all      []*Contract
	macros   map[string]*macro
	ufs      map[string]Sort
	recs     map[string]*macro
	theorems []*theorem
	lists    map[string][]ast.Expr
	axioms   []*clause
	files    []string
}

type TV struct {
	v Val
	t types.Type
}

type specErr struct{ msg string }

func specFail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

// preprocess rewrites "A ==> B" into imp(A, B) at every parenthesis level.
func preprocess(s string) string {
	type grp struct{ start int }
	// recursive descent over parentheses / commas
	var rec func(s string) string
	rec = func(s string) string {
		// split on top-level ==>
		depth := 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '(', '[', '{':
				depth++
			case ')', ']', '}':
				depth--
			case '\'', '"':
				j := i + 1
				for j < len(s) && s[j] != s[i] {
					if s[j] == '\\' {
						j++
					}
					j++
				}
				i = j
			case '=':
				if depth == 0 && strings.HasPrefix(s[i:], "==>") {
					return "imp(" + rec(s[:i]) + ", " + rec(s[i+3:]) + ")"
				}
			}
		}
		// no top-level implication: handle groups
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c == '\'' || c == '"' {
				j := i + 1
				for j < len(s) && s[j] != c {
					if s[j] == '\\' {
						j++
					}
					j++
				}
				b.WriteString(s[i : j+1])
				i = j
				continue
			}
			if c == '(' || c == '[' {
				d, j := 1, i+1
				for j < len(s) && d > 0 {
					switch s[j] {
					case '(', '[':
						d++
					case ')', ']':
						d--
					}
					j++
				}
				inner := s[i+1 : j-1]
				// split by top-level commas
				var parts []string
				dd, st := 0, 0
				for k := 0; k < len(inner); k++ {
					switch inner[k] {
					case '(', '[':
						dd++
					case ')', ']':
						dd--
					case ',':
						if dd == 0 {
							parts = append(parts, inner[st:k])
							st = k + 1
						}
					}
				}
				parts = append(parts, inner[st:])
				for k := range parts {
					parts[k] = rec(parts[k])
				}
				b.WriteByte(c)
				b.WriteString(strings.Join(parts, ","))
				b.WriteByte(s[j-1])
				i = j - 1
				continue
			}
			b.WriteByte(c)
		}
		return b.String()
	}
	return rec(s)
}

func parseSpecExpr(src string) (ast.Expr, error) { return parser.ParseExpr(preprocess(src)) }

func loadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{byName: map[string][]*Contract{}, macros: map[string]*macro{}, ufs: map[string]Sort{}, recs: map[string]*macro{}, lists: map[string][]ast.Expr{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	db.files = files
	for _, f := range files {
		if err := db.loadFile(f); err != nil {
			return nil, err
		}
	}
	return db, nil
}

func (db *SpecDB) loadFile(fn string) error {
	fh, err := os.Open(fn)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var lines []string
	var nums []int
	n := 0
	for sc.Scan() {
		n++
		l := sc.Text()
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		// continuation: deeper indentation with leading "|"
		tl := strings.TrimSpace(l)
		if strings.HasPrefix(tl, "| ") {
			lines[len(lines)-1] += " " + tl[2:]
			continue
		}
		lines = append(lines, l)
		nums = append(nums, n)
	}
	var cur *Contract
	for i, l := range lines {
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("%s:%d: %s", fn, nums[i], fmt.Sprintf(f, a...))
		}
		t := strings.TrimSpace(l)
		kw := t
		rest := ""
		if j := strings.IndexAny(t, " \t["); j >= 0 {
			kw = t[:j]
			rest = strings.TrimSpace(t[j:])
		}
		mkc := func() (*clause, error) {
			c := &clause{src: rest}
			r := rest
			if strings.HasPrefix(r, "@") {
				j := strings.IndexByte(r, ' ')
				c.loops = map[int]bool{}
				for _, x := range strings.Split(r[1:j], ",") {
					n, err := strconv.Atoi(x)
					if err != nil {
						return nil, fail("loop number %q", x)
					}
					c.loops[n] = true
				}
				r = strings.TrimSpace(r[j:])
			}
			if strings.HasPrefix(r, "[") && kw != "modifies" {
				j := strings.IndexByte(r, ']')
				for _, p := range strings.Split(r[1:j], ",") {
					c.props = append(c.props, strings.TrimSpace(p))
				}
				r = strings.TrimSpace(r[j+1:])
			}
			if j := strings.Index(r, ": "); j > 0 && !strings.ContainsAny(r[:j], "()[]\"'") {
				c.label, c.named = r[:j], true
				if l, fs, ok := strings.Cut(c.label, " from "); ok {
					c.label = l
					for _, f := range strings.Split(fs, ",") {
						c.from = append(c.from, strings.TrimSpace(f))
					}
				}
				r = strings.TrimSpace(r[j+2:])
			}
			c.src = r
			e, err := parseSpecExpr(r)
			if err != nil {
				return nil, fail("%v in %q", err, r)
			}
			c.expr = e
			if c.label == "" {
				c.label = r
				if len(c.label) > 100 {
					c.label = c.label[:100] + "..."
				}
			}
			return c, nil
		}
		switch kw {
		case "def":
			j := strings.IndexByte(rest, '(')
			k := strings.IndexByte(rest, ')')
			eq := strings.Index(rest, "=")
			if j < 0 || k < j || eq < k {
				return fail("bad def")
			}
			m := &macro{src: rest}
			for _, p := range strings.Split(rest[j+1:k], ",") {
				if p = strings.TrimSpace(p); p != "" {
					m.params = append(m.params, p)
				}
			}
			e, err := parseSpecExpr(rest[eq+1:])
			if err != nil {
				return fail("%v", err)
			}
			m.body = e
			if db.macros[strings.TrimSpace(rest[:j])] != nil {
				return fail("defined twice")
			}
			db.macros[strings.TrimSpace(rest[:j])] = m
		case "rec":
			// rec name(a, b) = body: a recursively defined function (on an argument its body decreases)
			j := strings.IndexByte(rest, '(')
			k := strings.IndexByte(rest, ')')
			eq := strings.Index(rest, "=")
			if j < 0 || k < j || eq < k {
				return fail("bad rec")
			}
			m := &macro{src: rest}
			for _, p := range strings.Split(rest[j+1:k], ",") {
				if p = strings.TrimSpace(p); p != "" {
					m.params = append(m.params, p)
				}
			}
			e, err := parseSpecExpr(rest[eq+1:])
			if err != nil {
				return fail("%v", err)
			}
			m.body = e
			db.recs[strings.TrimSpace(rest[:j])] = m
		case "list": // list name = constants
			eq := strings.Index(rest, "=")
			if eq < 0 {
				return fail("bad list")
			}
			var l []ast.Expr
			for _, p := range splitTop(rest[eq+1:]) {
				e, err := parseSpecExpr(p)
				if err != nil {
					return fail("%v", err)
				}
				l = append(l, e)
			}
			db.lists[strings.TrimSpace(rest[:eq])] = l
		case "uf":
			db.ufs[rest] = SInt
		case "ufbool":
			db.ufs[rest] = SBool
		case "func":
			cur = &Contract{name: rest, fname: rest, nilable: map[string]bool{}, inst: map[string]string{}, order: len(db.all), unroll: map[string]bool{}}
			if j := strings.Index(rest, " ["); j > 0 {
				cur.fname = strings.TrimSpace(rest[:j])
				in := strings.TrimSuffix(strings.TrimSpace(rest[j+2:]), "]")
				if k := strings.LastIndex(rest, "]"); k > 0 {
					in = rest[j+2 : k]
				}
				for _, p := range strings.Split(in, ";") {
					kv := strings.SplitN(p, "=", 2)
					if len(kv) == 2 {
						cur.inst[strings.TrimSpace(kv[0])] = strings.TrimSpace(kv[1])
					}
				}
			}
			db.byName[cur.fname] = append(db.byName[cur.fname], cur)
			db.all = append(db.all, cur)
		case "cutat": // cutat CALLEE, MAX, START: where the cut invariants hold
			p := strings.Split(rest, ",")
			if cur == nil || len(p) != 3 {
				return fail("cutat CALLEE, MAX, START")
			}
			cur.cutFn, cur.cutFrom = strings.TrimSpace(p[0]), strings.TrimSpace(p[2])
			cur.cutMax, _ = strconv.Atoi(strings.TrimSpace(p[1]))
		case "requires", "ensures", "decreases", "cut", "inv", "lemma", "global", "modifies", "defines":
			if cur == nil {
				return fail("no function")
			}
			if kw == "modifies" {
				for _, p := range splitTop(rest) {
					e, err := parseSpecExpr(p)
					if err != nil {
						return fail("%v", err)
					}
					cur.modifies = append(cur.modifies, &clause{expr: e, src: p, label: p})
				}
				break
			}
			c, err := mkc()
			if err != nil {
				return err
			}
			switch kw {
			case "requires":
				cur.requires = append(cur.requires, c)
			case "ensures":
				cur.ensures = append(cur.ensures, c)
			case "decreases":
				cur.decreases = append(cur.decreases, c)
			case "global":
				cur.globals = append(cur.globals, c)
			case "defines":
				cur.defs = append(cur.defs, c)
			case "cut":
				cur.cuts = append(cur.cuts, c)
			case "lemma":
				cur.lemmas = append(cur.lemmas, c)
			case "inv":
				cur.invs = append(cur.invs, c)
			}
		case "theorem":
			if cur == nil {
				return fail("no function")
			}
			th, err := parseTheorem(rest)
			if err != nil {
				return fail("%v", err)
			}
			cur.theorems = append(cur.theorems, th)
			db.theorems = append(db.theorems, th)
		case "given": // given K, ...: integers the contract's clauses hold for, whatever their values
			for _, n := range strings.Split(rest, ",") {
				cur.givens = append(cur.givens, strings.TrimSpace(n))
			}
		case "let":
			j := strings.Index(rest, "=")
			e, err := parseSpecExpr(rest[j+1:])
			if err != nil {
				return fail("%v", err)
			}
			cur.lets = append(cur.lets, struct {
				name string
				c    *clause
			}{strings.TrimSpace(rest[:j]), &clause{expr: e, src: rest}})
		case "nilable":
			for _, p := range strings.Split(rest, ",") {
				cur.nilable[strings.TrimSpace(p)] = true
			}
		case "inline":
			cur.inline = true
		case "focus": // the postconditions are proved from the last cut and the lemmas alone
			cur.focus = true
		case "thin": // thin CALLEE, ...: LABEL, ... -- of these callees' postconditions use only those named
			l, r, _ := strings.Cut(rest, ":")
			for _, n := range strings.Split(l, ",") {
				m := map[string]bool{}
				for _, x := range strings.Split(r, ",") {
					m[strings.TrimSpace(x)] = true
				}
				if cur.thin == nil {
					cur.thin = map[string]map[string]bool{}
				}
				cur.thin[strings.TrimSpace(n)] = m
			}
		case "nomerge": // keep the paths of this function apart
			cur.nomerge = true
		case "noerr":
			cur.noerr = true
		case "anyframe":
			cur.anyframe = true
		case "timeout":
			cur.timeout, _ = strconv.Atoi(rest)
		default:
			return fail("unknown keyword %q", kw)
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

func (db *SpecDB) contractsFor(fn *ssa.Function) []*Contract { return db.byName[fnName(fn)] }

// callable reports whether the contract applies to these actual arguments.
func (c *Contract) callable(fn *ssa.Function, args []Val) bool {
	if c.inline {
		return false
	}
	for i, p := range fn.Params {
		if pv, ok := args[i].(*PtrV); ok && pv.obj > 0 {
			return false
		}
		if sv, ok := args[i].(*SliceV); ok && sv.obj > 0 {
			return false
		}
		want, ok := c.inst[p.Name()]
		if !ok {
			continue
		}
		iv, ok := args[i].(*IfaceV)
		if !ok || iv.typ == nil || typeKey(iv.typ) != want {
			return false
		}
	}
	return true
}

// ---------- evaluation ----------

type ctx struct {
	u       *Unit
	st, pre *State
	ent     *ctx // loop entry
	fn      *ssa.Function
	names   map[string]TV
	resolve func(string) (TV, bool)
	bound   map[string]*Term
	depth   int
	inRec   bool
}

// definitions of the recursive applications met in specifications
var recAx = map[*Term]*Term{}

func (u *Unit) newCtx(st, pre *State) *ctx {
	return &ctx{u: u, st: st, pre: pre, names: map[string]TV{}, bound: map[string]*Term{}}
}

func (c *ctx) sub() *ctx {
	n := *c
	n.bound = map[string]*Term{}
	for k, v := range c.bound {
		n.bound[k] = v
	}
	return &n
}

func (c *ctx) bindParams(fn *ssa.Function, args []Val) {
	c.fn = fn
	for i, p := range fn.Params {
		c.names[p.Name()] = unwrapTV(args[i], p.Type())
	}
}

// unwrapTV: an interface value of known pointer type is its pointer.
func unwrapTV(v Val, t types.Type) TV {
	if iv, ok := v.(*IfaceV); ok && iv.typ != nil {
		if _, isp := iv.typ.Underlying().(*types.Pointer); isp {
			return TV{iv.val, iv.typ}
		}
	}
	return TV{v, t}
}

func (c *ctx) bindResults(fn *ssa.Function, rs []Val) {
	sig := fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		tv := TV{rs[i], sig.At(i).Type()}
		c.names[fmt.Sprintf("ret%d", i)] = tv
		if nm := sig.At(i).Name(); nm != "" && nm != "_" {
			c.names[nm] = tv
		}
		if isErrorType(sig.At(i).Type()) && i == sig.Len()-1 {
			c.names["err"] = tv
		}
	}
}

func (c *ctx) evalBool(e ast.Expr) *Term {
	v := c.eval(e)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		specFail("not a boolean: %s", exprStr(e))
	}
	return t
}

func (c *ctx) evalInt(e ast.Expr) *Term {
	v := c.eval(e)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SInt {
		specFail("not an integer: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

var tyInt = types.Typ[types.Int]
var tyBool = types.Typ[types.Bool]

func ti(t *Term) TV { return TV{t, tyInt} }
func tb(t *Term) TV { return TV{t, tyBool} }

func (c *ctx) ident(n string) (TV, bool) {
	if b, ok := c.bound[n]; ok {
		return ti(b), true
	}
	if v, ok := c.names[n]; ok {
		return v, true
	}
	if c.resolve != nil {
		if v, ok := c.resolve(n); ok {
			return v, true
		}
	}
	switch n {
	case "true":
		return tb(tTrue), true
	case "false":
		return tb(tFalse), true
	case "nil":
		return TV{nil, nil}, true
	}
	for _, p := range c.u.eng.pkgs {
		if p == nil {
			continue
		}
		if o := p.Pkg.Scope().Lookup(n); o != nil {
			if k, ok := o.(*types.Const); ok {
				if k.Val().Kind() == constant.Int {
					b, _ := new(big.Int).SetString(k.Val().ExactString(), 10)
					return ti(NumB(b)), true
				}
			}
			if _, ok := o.(*types.Var); ok {
				if g, ok := p.Members[n].(*ssa.Global); ok {
					return TV{c.u.globalVal(c.st, g), o.Type()}, true
				}
			}
		}
	}
	return TV{}, false
}

func (c *ctx) eval(e ast.Expr) TV {
	c.depth++
	if c.depth > 200 {
		specFail("specification recursion")
	}
	defer func() { c.depth-- }()
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.Ident:
		if v, ok := c.ident(x.Name); ok {
			return v
		}
		specFail("unknown name %s", x.Name)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(x.Value, 0)
			if !ok {
				specFail("literal %s", x.Value)
			}
			return ti(NumB(b))
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\'')
			if err != nil {
				specFail("literal %s", x.Value)
			}
			return ti(Num(int64(r)))
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return TV{c.u.eng.strLit(s), types.Typ[types.String]}
		}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return tb(Not(c.evalBool(x.X)))
		case token.SUB:
			return ti(Sub(Num(0), c.evalInt(x.X)))
		}
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.SelectorExpr:
		return c.selector(c.eval(x.X), x.Sel.Name)
	case *ast.StarExpr:
		v := c.eval(x.X)
		p, ok := v.v.(*PtrV)
		if !ok {
			specFail("dereference of %s", exprStr(x.X))
		}
		return TV{c.u.load(c.st, p), p.pointee()}
	case *ast.IndexExpr:
		v := c.eval(x.X)
		switch b := v.v.(type) {
		case *SliceV:
			i := c.evalInt(x.Index)
			return TV{c.u.load(c.st, c.u.elemPtr(b, i)), b.elem}
		case *Term:
			if mt, ok := v.t.Underlying().(*types.Map); ok {
				k := c.evalInt(x.Index)
				return TV{c.u.mapGet(c.st, mt, b, k), mt.Elem()}
			}
			if isStr(v.t) {
				return ti(c.u.strAt(b, c.evalInt(x.Index)))
			}
			if isByteArr4(v.t) {
				i, _ := c.evalInt(x.Index).i64()
				return ti(byteOf(b, 3-int(i)))
			}
		}
		specFail("index of %s", exprStr(x.X))
	case *ast.CallExpr:
		return c.call(x)
	}
	specFail("expression %s", exprStr(e))
	return TV{}
}

func (c *ctx) selector(v TV, name string) TV {
	switch b := v.v.(type) {
	case *PtrV:
		t := b.pointee()
		st, ok := isStruct(t)
		if !ok {
			specFail("field %s of %s", name, t)
		}
		if i, path := findField(st, name); i >= 0 {
			q := b
			tt := t
			for _, k := range path {
				s2, ok := isStruct(tt)
				if !ok { // embedded pointer
					pv := c.u.load(c.st, q).(*PtrV)
					q = pv
					tt = pv.pointee()
					s2, _ = isStruct(tt)
				}
				q = q.field(k)
				tt = s2.Field(k).Type()
			}
			return TV{c.u.load(c.st, q), tt}
		}
		if ls, ok := opaqueLeaves(t); ok {
			for i, l := range ls {
				if l.name == name {
					return ti(c.u.load(c.st, b).(*StructV).f[i].(*Term))
				}
			}
		}
	case *StructV:
		st, ok := isStruct(b.t)
		if !ok {
			specFail("field %s", name)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return TV{b.f[i], st.Field(i).Type()}
			}
		}
		// embedded
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				if r, ok := c.trySel(TV{b.f[i], st.Field(i).Type()}, name); ok {
					return r
				}
			}
		}
	}
	specFail("no field %s", name)
	return TV{}
}

func (c *ctx) trySel(v TV, name string) (r TV, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(specErr); !is {
				panic(e)
			}
			ok = false
		}
	}()
	return c.selector(v, name), true
}

func findField(st *types.Struct, name string) (int, []int) {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, []int{i}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Embedded() {
			continue
		}
		ft := st.Field(i).Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		if s2, ok := isStruct(ft); ok {
			if j, p := findField(s2, name); j >= 0 {
				return i, append([]int{i}, p...)
			}
		}
	}
	return -1, nil
}

func (c *ctx) binary(x *ast.BinaryExpr) TV {
	switch x.Op {
	case token.LAND:
		a := c.evalBool(x.X)
		if a == tFalse {
			return tb(tFalse)
		}
		return tb(And(a, c.evalBool(x.Y)))
	case token.LOR:
		a := c.evalBool(x.X)
		if a == tTrue {
			return tb(tTrue)
		}
		return tb(Or(a, c.evalBool(x.Y)))
	case token.EQL, token.NEQ:
		a, b := c.eval(x.X), c.eval(x.Y)
		r := c.equal(a, b)
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return tb(r)
	}
	a, b := c.evalInt(x.X), c.evalInt(x.Y)
	switch x.Op {
	case token.ADD:
		return ti(Add(a, b))
	case token.SUB:
		return ti(Sub(a, b))
	case token.MUL:
		return ti(Mul(a, b))
	case token.QUO:
		if b.isNum() && b.n.Sign() > 0 {
			return ti(Div(a, b.n))
		}
	case token.REM:
		if b.isNum() && b.n.Sign() > 0 {
			return ti(Mod(a, b.n))
		}
	case token.LSS:
		return tb(Lt(a, b))
	case token.LEQ:
		return tb(Le(a, b))
	case token.GTR:
		return tb(Lt(b, a))
	case token.GEQ:
		return tb(Le(b, a))
	case token.AND:
		return ti(bitAnd(a, b))
	case token.SHL:
		if k, ok := b.i64(); ok {
			return ti(MulC(a, pow2(uint(k))))
		}
	case token.SHR:
		if k, ok := b.i64(); ok {
			return ti(Div(a, pow2(uint(k))))
		}
	}
	specFail("operator in %s", exprStr(x))
	return TV{}
}

func (c *ctx) equal(a, b TV) *Term {
	if a.v == nil && b.v == nil {
		return tTrue
	}
	if a.v == nil {
		a, b = b, a
	}
	if b.v == nil {
		switch x := a.v.(type) {
		case *Term:
			return Eq(x, Num(0))
		case *PtrV:
			if x.obj > 0 || x.idx != nil || len(x.path) > 0 {
				return tFalse
			}
			return Eq(x.ref, Num(0))
		case *SliceV:
			if x.obj > 0 {
				return tFalse
			}
			return Eq(x.ref, Num(0))
		case *IfaceV:
			if x.typ != nil {
				return tFalse
			}
			return Eq(x.tag, Num(0))
		}
		specFail("comparison with nil")
	}
	switch x := a.v.(type) {
	case *Term:
		if y, ok := b.v.(*Term); ok {
			return Eq(x, y)
		}
	case *PtrV:
		if y, ok := b.v.(*PtrV); ok {
			return Eq(x.ref, y.ref)
		}
		if _, ok := b.v.(*IfaceV); ok {
			return c.equal(b, a)
		}
	case *SliceV:
		if y, ok := b.v.(*SliceV); ok {
			return And(Eq(x.ref, y.ref), Eq(x.off, y.off), Eq(x.len, y.len))
		}
	case *StructV:
		if y, ok := b.v.(*StructV); ok && len(x.f) == len(y.f) {
			st, _ := isStruct(x.t)
			var cs []*Term
			for i := range x.f {
				var ft types.Type
				if st != nil && i < st.NumFields() {
					ft = st.Field(i).Type()
				}
				cs = append(cs, c.equal(TV{x.f[i], ft}, TV{y.f[i], ft}))
			}
			return And(cs...)
		}
	case *IfaceV:
		if y, ok := b.v.(*IfaceV); ok {
			if x.typ == nil && y.typ == nil {
				return And(Eq(x.tag, y.tag), Eq(x.ref, y.ref))
			}
			if x.typ != nil && y.typ != nil {
				if typeKey(x.typ) != typeKey(y.typ) {
					return tFalse
				}
				return c.equal(TV{x.val, x.typ}, TV{y.val, y.typ})
			}
			if x.typ != nil {
				x, y = y, x
			}
			return c.equal(TV{x, a.t}, TV{y.val, y.typ})
		}
		if y, ok := b.v.(*PtrV); ok && b.t != nil {
			if x.typ != nil {
				return c.equal(TV{x.val, x.typ}, b)
			}
			return And(Eq(x.tag, Num(c.u.eng.typeID(b.t))), Eq(x.ref, y.ref))
		}
	}
	specFail("equality of %T and %T", a.v, b.v)
	return nil
}

func (c *ctx) at(st *State) *ctx {
	n := c.sub()
	n.st = st
	return n
}

type rdr struct {
	p   *PtrV // bufio reader
	rs  *Term // stream
	pos *Term
	gen *Term
	brs *Term
	bt  *PtrV // byteReader pointer or nil
}

func (c *ctx) reader(e ast.Expr) *rdr {
	v := c.eval(e)
	var rsv, bv Val
	r := &rdr{}
	if iv, ok := v.v.(*IfaceV); ok {
		r.rs = ifRef(iv)
		r.pos = c.u.streamPos(c.st, r.rs)
		return r
	}
	if p, ok := v.v.(*PtrV); ok && typeKey(p.pointee()) != "byteReader" && p.idx == nil {
		r.rs = p.ref
		r.pos = c.u.streamPos(c.st, r.rs)
		return r
	}
	if p, ok := v.v.(*PtrV); ok && typeKey(p.pointee()) == "byteReader" {
		rsv = c.selector(v, "rs").v
		bv = c.selector(v, "reader").v
		r.bt = p
	} else if s, ok := v.v.(*StructV); ok && typeKey(s.t) == "byteReader" {
		rsv = c.selector(v, "rs").v
		bv = c.selector(v, "reader").v
	} else {
		specFail("not a reader: %s", exprStr(e))
	}
	r.rs = ifRef(rsv.(*IfaceV))
	r.p = bv.(*PtrV)
	sv := c.u.load(c.st, r.p).(*StructV)
	r.brs, r.pos, r.gen = sv.f[0].(*Term), sv.f[1].(*Term), sv.f[2].(*Term)
	return r
}

type wtr struct {
	buf     *PtrV
	arr, ln *Term
}

func (c *ctx) writer(e ast.Expr) *wtr {
	v := c.eval(e)
	w := &wtr{}
	if p, ok := v.v.(*PtrV); ok {
		switch typeKey(p.pointee()) {
		case "byteWriter":
			st, _ := isStruct(p.pointee())
			i, _ := findField(st, "buffer")
			w.buf = p.field(i)
		case "bytes.Buffer":
			w.buf = p
		}
	}
	if sv, ok := v.v.(*StructV); ok && typeKey(v.t) == "bytes.Buffer" {
		w.arr, w.ln = sv.f[0].(*Term), sv.f[1].(*Term)
		return w
	}
	if w.buf == nil {
		if iv, ok := v.v.(*IfaceV); ok {
			if iv = c.u.resolveIface(c.st, iv); iv.typ != nil {
				if p, ok := iv.val.(*PtrV); ok && typeKey(p.pointee()) == "bytes.Buffer" {
					w.buf = p
				}
			}
			v.v = iv
		}
	}
	if w.buf == nil {
		if iv, ok := v.v.(*IfaceV); ok && iv.typ == nil {
			lA, lL := leaf{sort: SInt, lo: zeroB, hi: byteHi}, leaf{sort: SInt, lo: zeroB, hi: maxLen}
			w.arr = Select(c.u.getComp(c.st, "$sink.arr", lA, true), iv.ref)
			w.ln = Select(c.u.getComp(c.st, "$sink.len", lL, false), iv.ref)
			return w
		}
		specFail("not a writer: %s", exprStr(e))
	}
	sv := c.u.load(c.st, w.buf).(*StructV)
	w.arr, w.ln = sv.f[0].(*Term), sv.f[1].(*Term)
	return w
}

func (c *ctx) args(x *ast.CallExpr, n int) {
	if len(x.Args) != n {
		specFail("%d arguments expected in %s", n, exprStr(x))
	}
}

// bytesAt reads n big-endian bytes of arr at p.
func bytesAt(arr, p *Term, n int) *Term {
	var ts []*Term
	for i := 0; i < n; i++ {
		ts = append(ts, MulC(Select(arr, AddI(p, int64(i))), pow2(uint(8*(n-1-i)))))
	}
	return Add(ts...)
}

var intSizes = map[string]struct {
	n      int
	signed bool
}{"8": {1, false}, "16": {2, false}, "32": {4, false}, "64": {8, false}}

func (c *ctx) call(x *ast.CallExpr) TV {
	name := ""
	switch f := x.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	default:
		specFail("call of %s", exprStr(x.Fun))
	}
	u := c.u
	switch name {
	case "imp":
		a := c.evalBool(x.Args[0])
		if a == tFalse {
			return tb(tTrue)
		}
		return tb(Imp(a, c.evalBool(x.Args[1])))
	case "ite":
		k := c.evalBool(x.Args[0])
		if k == tTrue {
			return c.eval(x.Args[1])
		}
		if k == tFalse {
			return c.eval(x.Args[2])
		}
		a, b := c.eval(x.Args[1]), c.eval(x.Args[2])
		m, ok := u.mergeVal(k, a.v, b.v)
		if !ok {
			specFail("ite")
		}
		return TV{m, a.t}
	case "old":
		return c.at(c.pre).eval(x.Args[0])
	case "entry":
		if c.ent == nil {
			specFail("entry() outside a loop")
		}
		n := c.ent.sub()
		for k, v := range c.bound {
			n.bound[k] = v
		}
		return n.eval(x.Args[0])
	case "forallk": // over all keys
		c.args(x, 2)
		kk := BoundVar(x.Args[0].(*ast.Ident).Name)
		n := c.sub()
		n.bound[x.Args[0].(*ast.Ident).Name] = kk
		return tb(mkQuant(true, kk, nil, nil, n.evalBool(x.Args[1])))
	case "forall", "exists":
		c.args(x, 4)
		id, ok := x.Args[0].(*ast.Ident)
		if !ok {
			specFail("bound variable")
		}
		lo, hi := c.evalInt(x.Args[1]), c.evalInt(x.Args[2])
		// small constant ranges are expanded
		if a, ok := lo.i64(); ok {
			if b, ok := hi.i64(); ok && b-a <= 8 {
				var cs []*Term
				for i := a; i < b; i++ {
					n := c.sub()
					n.bound[id.Name] = Num(i)
					cs = append(cs, n.evalBool(x.Args[3]))
				}
				if name == "forall" {
					return tb(And(cs...))
				}
				return tb(Or(cs...))
			}
		}
		k := BoundVar(id.Name)
		n := c.sub()
		n.bound[id.Name] = k
		body := n.evalBool(x.Args[3])
		return tb(mkQuant(name == "forall", k, lo, hi, body))
	case "len":
		c.args(x, 1)
		v := c.eval(x.Args[0])
		switch b := v.v.(type) {
		case *SliceV:
			return ti(b.len)
		case *Term:
			if mt, ok := v.t.Underlying().(*types.Map); ok {
				return ti(Ite(Eq(b, Num(0)), Num(0), u.mapLen(c.st, mt, b)))
			}
			if isStr(v.t) {
				return ti(u.strLen(b))
			}
		}
		specFail("len of %s", exprStr(x.Args[0]))
	case "cap":
		return ti(c.eval(x.Args[0]).v.(*SliceV).cap)
	case "has":
		v := c.eval(x.Args[0])
		mt, ok := v.t.Underlying().(*types.Map)
		if !ok {
			specFail("has() on %s", v.t)
		}
		return tb(u.mapHas(c.st, mt, v.v.(*Term), c.evalInt(x.Args[1])))
	case "visited":
		// visited(k): the key was already produced by the enclosing map range
		v, ok := c.ident("$visited")
		if !ok {
			specFail("no map range")
		}
		return tb(Select(v.v.(*Term), c.evalInt(x.Args[0])))
	case "fresh":
		v := c.eval(x.Args[0])
		var r *Term
		switch b := v.v.(type) {
		case *PtrV:
			r = b.ref
		case *SliceV:
			r = b.ref
		case *Term:
			r = b
		case *IfaceV:
			r = b.ref
		}
		return tb(And(Lt(c.pre.mark, r), Le(r, c.st.mark)))
	case "valid":
		// the reference existed in the pre-state or was allocated up to now
		v := c.eval(x.Args[0])
		switch b := v.v.(type) {
		case *PtrV:
			return tb(Le(b.ref, c.st.mark))
		}
		specFail("valid")
	case "fbyte":
		r := c.reader(x.Args[0])
		return ti(Select(fdata(r.rs), c.evalInt(x.Args[1])))
	case "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64":
		if len(x.Args) == 2 {
			s := intSizes[name[1:]]
			r := c.reader(x.Args[0])
			t := streamInt(r.rs, c.evalInt(x.Args[1]), s.n)
			if name[0] == 'i' {
				t = signedOf(t, uint(8*s.n))
			}
			return ti(t)
		}
		s := intSizes[name[1:]]
		t := c.evalInt(x.Args[0])
		if name[0] == 'i' {
			return ti(signedOf(t, uint(8*s.n)))
		}
		return ti(Mod(t, pow2(uint(8*s.n))))
	case "b8", "b16", "b32", "b64":
		s := intSizes[name[1:]]
		w := c.writer(x.Args[0])
		return ti(bytesAt(w.arr, c.evalInt(x.Args[1]), s.n))
	case "d8", "d16", "d32": // big-endian value in a byte slice
		s := intSizes[name[1:]]
		sl := c.eval(x.Args[0]).v.(*SliceV)
		p := c.evalInt(x.Args[1])
		var ts []*Term
		for i := 0; i < s.n; i++ {
			ts = append(ts, MulC(u.load(c.st, u.elemPtr(sl, AddI(p, int64(i)))).(*Term), pow2(uint(8*(s.n-1-i)))))
		}
		return ti(Add(ts...))
	case "bl":
		return ti(c.writer(x.Args[0]).ln)
	case "sel": // sel(arrayterm, i)
		return ti(Select(c.eval(x.Args[0]).v.(*Term), c.evalInt(x.Args[1])))
	case "runeat": // runeat(s, p): the rune at byte position p of string s
		t, _ := u.runeAt(c.eval(x.Args[0]).v.(*Term), c.evalInt(x.Args[1]))
		return ti(t)
	case "runesz":
		_, t := u.runeAt(c.eval(x.Args[0]).v.(*Term), c.evalInt(x.Args[1]))
		return ti(t)
	case "nrunes":
		appRange["nrunes"] = &SymMeta{lo: zeroB, hi: maxLen}
		return ti(App("nrunes", SInt, c.eval(x.Args[0]).v.(*Term)))
	case "runesof": // runesof(s): the array of the runes of string s
		return TV{App("srunes", SArr, c.eval(x.Args[0]).v.(*Term)), nil}
	case "rstr": // rstr(runes): the string of a rune slice
		sl := c.eval(x.Args[0]).v.(*SliceV)
		return TV{App("rstr", SInt, u.rowOf(c.st, sl), sl.off, sl.len), types.Typ[types.String]}
	case "isprint":
		return tb(App("isprint", SBool, c.evalInt(x.Args[0])))
	case "quoterune":
		return TV{App("quoterune", SInt, c.evalInt(x.Args[0])), types.Typ[types.String]}
	case "macdec":
		return ti(App("macdec", SInt, c.evalInt(x.Args[0])))
	case "decrune": // what a decoder makes of a code of n bytes
		return ti(App("decrune", SInt, c.evalInt(x.Args[0]), c.evalInt(x.Args[1]), c.evalInt(x.Args[2])))
	case "encid": // an encoding of golang.org/x/text
		l, ok := x.Args[0].(*ast.BasicLit)
		if !ok {
			specFail("encid of a string")
		}
		n, _ := strconv.Unquote(l.Value)
		return ti(Num(-u.eng.constID(n)))
	case "decid": // the encoding a decoder is for
		p, ok := c.eval(x.Args[0]).v.(*PtrV)
		if !ok {
			specFail("decid of a decoder")
		}
		return ti(u.load(c.st, p).(*StructV).f[0].(*Term))
	case "utf8len":
		return ti(utf8len(c.evalInt(x.Args[0])))
	case "utf8byte":
		r := c.evalInt(x.Args[0])
		utf8len(r)
		return ti(Select(App("utf8b", SArr, r), c.evalInt(x.Args[1])))
	case "bytestr": // bytestr(b): the string of a byte slice
		return TV{u.bytesToStr(c.st, c.eval(x.Args[0]).v.(*SliceV)), types.Typ[types.String]}
	case "ufstr": // ufstr(f, ...): a string-valued specification function
		id := x.Args[0].(*ast.Ident)
		var as []*Term
		for _, a := range x.Args[1:] {
			as = append(as, c.eval(a).v.(*Term))
		}
		return TV{App("ufs:"+id.Name, SInt, as...), types.Typ[types.String]}
	case "argof": // argof(s, i): the i-th argument of the string-valued specification function s is known to be
		c.args(x, 2)
		t := c.eval(x.Args[0]).v.(*Term)
		i, ok := c.evalInt(x.Args[1]).i64()
		if t.op != OApp || !strings.HasPrefix(t.name, "ufs:") || !ok || int(i) >= len(t.args) {
			specFail("argof: not an application")
		}
		return TV{t.args[i], types.Typ[types.String]}
	case "each": // each(k, lo, hi, P): P for every constant k in [lo, hi)
		c.args(x, 4)
		id, ok := x.Args[0].(*ast.Ident)
		lo, ok1 := c.evalInt(x.Args[1]).i64()
		hi, ok2 := c.evalInt(x.Args[2]).i64()
		if !ok || !ok1 || !ok2 {
			specFail("each needs constant bounds")
		}
		var out []*Term
		for k := lo; k < hi; k++ {
			n := c.sub()
			n.bound[id.Name] = Num(k)
			out = append(out, n.evalBool(x.Args[3]))
		}
		return tb(And(out...))
	case "findlist": // findlist(L, x): the first index of x in L, or -1
		c.args(x, 2)
		id, ok := x.Args[0].(*ast.Ident)
		l, ok1 := u.eng.specs.lists[id.Name]
		if !ok || !ok1 {
			specFail("findlist needs a list")
		}
		v := c.evalInt(x.Args[1])
		r := Num(-1)
		for k := len(l) - 1; k >= 0; k-- {
			r = Ite(Eq(v, c.evalInt(l[k])), Num(int64(k)), r)
		}
		return ti(r)
	case "hasrow": // hasrow(m): the set of keys of a map
		tv := c.eval(x.Args[0])
		mt := tv.t.Underlying().(*types.Map)
		return TV{Select(u.mapDom(c.st, mt), tv.v.(*Term)), nil}
	case "barr":
		return TV{c.writer(x.Args[0]).arr, nil}
	case "farr":
		return TV{fdata(c.reader(x.Args[0]).rs), nil}
	case "off": // offset of a slice in its array
		return ti(c.eval(x.Args[0]).v.(*SliceV).off)
	case "row":
		sl := c.eval(x.Args[0]).v.(*SliceV)
		return TV{u.rowOf(c.st, sl), nil}
	case "pos":
		return ti(c.reader(x.Args[0]).pos)
	case "flen":
		return ti(flen(c.reader(x.Args[0]).rs))
	case "stream":
		return ti(c.reader(x.Args[0]).rs)
	case "reliable":
		return tb(reliable(c.reader(x.Args[0]).rs))
	case "insync":
		r := c.reader(x.Args[0])
		if r.p == nil {
			return tb(tTrue)
		}
		return tb(And(Eq(r.brs, r.rs), Eq(r.gen, u.streamGen(c.st, r.rs)), Le(Num(0), r.pos), Ne(r.p.ref, Num(0))))
	case "signed16":
		return ti(signedOf(c.evalInt(x.Args[0]), 16))
	case "div":
		b := c.evalInt(x.Args[1])
		return ti(Div(c.evalInt(x.Args[0]), b.n))
	case "mod":
		b := c.evalInt(x.Args[1])
		return ti(Mod(c.evalInt(x.Args[0]), b.n))
	case "bit": // bit(x, k)
		k, _ := c.evalInt(x.Args[1]).i64()
		return tb(Eq(Mod(Div(c.evalInt(x.Args[0]), pow2(uint(k))), big64(2)), Num(1)))
	case "min":
		a, b := c.evalInt(x.Args[0]), c.evalInt(x.Args[1])
		return ti(Ite(Le(a, b), a, b))
	case "max":
		a, b := c.evalInt(x.Args[0]), c.evalInt(x.Args[1])
		return ti(Ite(Le(a, b), b, a))
	case "tagv": // numeric value of a 4 character tag
		t := c.evalInt(x.Args[0]) // a string
		var bs []*Term
		for i := int64(0); i < 4; i++ {
			in := Lt(Num(i), u.strLen(t))
			if in == tFalse {
				bs = append(bs, Num(32))
			} else {
				bs = append(bs, Ite(in, u.strAt(t, Num(i)), Num(32)))
			}
		}
		v := Add(MulC(bs[0], pow2(24)), MulC(bs[1], pow2(16)), MulC(bs[2], pow2(8)), bs[3])
		if k, ok := v.i64(); ok { // its text, for comparisons with literals
			w := string([]byte{byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)})
			u.fact(c.st, Eq(App("str4", SInt, v), u.eng.strLit(w)))
			u.fact(c.st, Eq(App("trimspace", SInt, App("str4", SInt, v)), u.eng.strLit(strings.TrimSpace(w))))
		}
		return ti(v)
	case "trimtag": // the map key string of a tag value
		return TV{App("trimspace", SInt, App("str4", SInt, c.evalInt(x.Args[0]))), types.Typ[types.String]}
	case "istype":
		v, ok := c.eval(x.Args[0]).v.(*IfaceV)
		b, ok2 := x.Args[1].(*ast.BasicLit)
		if !ok || !ok2 {
			specFail("istype")
		}
		s, _ := strconv.Unquote(b.Value)
		if v.typ != nil {
			return tb(Bool(typeKey(v.typ) == s))
		}
		id, ok := u.eng.typeIDs[s]
		if !ok {
			t := u.eng.typeNamed(s)
			if t == nil {
				specFail("unknown type %s", s)
			}
			id = u.eng.typeID(t)
		}
		return tb(Eq(v.tag, Num(id)))
	case "as": // as(iface, "type"): the value assuming the dynamic type
		v, ok := c.eval(x.Args[0]).v.(*IfaceV)
		b, ok2 := x.Args[1].(*ast.BasicLit)
		if !ok || !ok2 {
			specFail("as")
		}
		s, _ := strconv.Unquote(b.Value)
		if v.typ != nil {
			return TV{v.val, v.typ}
		}
		t := u.eng.typeNamed(s)
		if t == nil {
			specFail("unknown type %s", s)
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return TV{&PtrV{root: pt.Elem(), ref: v.ref, oidx: -1}, t}
		}
		if _, ok := isStruct(t); ok {
			return TV{u.load(c.st, &PtrV{root: t, ref: v.ref, oidx: -1}), t}
		}
		return TV{v.ref, t}
	case "ref":
		switch b := c.eval(x.Args[0]).v.(type) {
		case *PtrV:
			return ti(b.ref)
		case *SliceV:
			return ti(b.ref)
		case *Term:
			return ti(b)
		}
		specFail("ref")
	case "conc": // is the value known to come from this call only (concrete)
		return tb(tTrue)
	}
	if m, ok := u.eng.specs.macros[name]; ok {
		c.args(x, len(m.params))
		n := c.sub()
		n.names = map[string]TV{}
		for k, v := range c.names {
			n.names[k] = v
		}
		nb := map[string]*Term{}
		for k, v := range c.bound {
			nb[k] = v
		}
		for i, p := range m.params {
			n.names[p] = c.eval(x.Args[i])
			delete(nb, p)
		}
		n.bound = nb
		return n.eval(m.body)
	}
	if l, ok := u.eng.specs.lists[name]; ok {
		c.args(x, 1)
		i := c.evalInt(x.Args[0])
		if k, ok := i.i64(); ok && k >= 0 && k < int64(len(l)) {
			return c.eval(l[k])
		}
		r := c.eval(l[len(l)-1])
		for k := len(l) - 2; k >= 0; k-- {
			v := c.eval(l[k])
			r = TV{Ite(Eq(i, Num(int64(k))), v.v.(*Term), r.v.(*Term)), v.t}
		}
		return r
	}
	if m, ok := u.eng.specs.recs[name]; ok {
		c.args(x, len(m.params))
		n := c.sub()
		n.names = map[string]TV{}
		var as []*Term
		bound := false
		for i, p := range m.params {
			v := c.eval(x.Args[i])
			n.names[p] = v
			delete(n.bound, p)
			switch t := v.v.(type) {
			case *Term:
				as = append(as, t)
			case *SliceV:
				if t.obj > 0 {
					specFail("argument of %s", name)
				}
				as = append(as, u.rowOf(c.st, t), t.off)
			default:
				specFail("argument of %s", name)
			}
		}
		for _, a := range as {
			bound = bound || a.bound
		}
		app := App("rec:"+name, SInt, as...)
		if !bound && !c.inRec && recAx[app] == nil {
			n.inRec = true
			b := n.evalInt(m.body)
			if b != app {
				recAx[app] = Eq(app, b)
			}
		}
		return TV{app, tyInt}
	}
	if srt, ok := u.eng.specs.ufs[name]; ok {
		var as []*Term
		for _, a := range x.Args {
			t, ok := c.eval(a).v.(*Term)
			if !ok {
				specFail("argument of %s", name)
			}
			as = append(as, t)
		}
		return TV{App("uf:"+name, srt, as...), tyInt}
	}
	specFail("unknown function %s", name)
	return TV{}
}

// mkQuant builds a bounded quantifier, reparametrised so that some select is indexed by the
// bound variable itself.
func mkQuant(all bool, k, lo, hi, body *Term) *Term {
	if all && lo != nil && !occurs(k, body) {
		return Or(Le(hi, lo), body)
	}
	if all && lo != nil && body.op == OAnd {
		// conjuncts that do not mention the variable leave the quantifier
		var in, out []*Term
		for _, c := range body.args {
			if occurs(k, c) {
				in = append(in, c)
			} else {
				out = append(out, Or(Le(hi, lo), c))
			}
		}
		if len(out) > 0 {
			return And(append(out, mkQuant(all, k, lo, hi, And(in...)))...)
		}
	}
	pats := selectsAt(body, k)
	if len(pats) == 0 {
		if off := shiftOf(body, k); off != nil {
			// index = k + off: replace k by k' - off
			k2 := BoundVar("q")
			body = Subst(body, map[*Term]*Term{k: Sub(k2, off)})
			if lo != nil {
				lo, hi = Add(lo, off), Add(hi, off)
			}
			k = k2
			pats = selectsAt(body, k)
		}
	}
	rng := tTrue
	if lo != nil {
		rng = And(Le(lo, k), Lt(k, hi))
	}
	var ps [][]*Term
	for _, p := range pats {
		ps = append(ps, []*Term{p})
		if len(ps) == 4 {
			break
		}
	}
	if all {
		return Forall([]*Term{k}, Imp(rng, body), ps...)
	}
	return Exists([]*Term{k}, And(rng, body), ps...)
}

// recTerm applies a recursively defined specification function.
func (u *Unit) recTerm(s *State, name string, args ...TV) *Term {
	c := u.newCtx(s, s)
	x := &ast.CallExpr{Fun: ast.NewIdent(name)}
	for i, a := range args {
		p := fmt.Sprintf("$a%d", i)
		c.names[p] = a
		x.Args = append(x.Args, ast.NewIdent(p))
	}
	return c.evalInt(x)
}

// selectsAt finds selects (with ground array) indexed exactly by k.
func selectsAt(t, k *Term) []*Term {
	var out, recs []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == OSelect && t.args[1] == k && !t.args[0].bound && t.args[0].op != OStore && (t.args[0].op != OIte || plainIte(t.args[0])) {
			out = append(out, t)
			return
		}
		if t.op == OApp && strings.HasPrefix(t.name, "rec:") && t.args[len(t.args)-1] == k {
			g := true
			for _, a := range t.args[:len(t.args)-1] {
				g = g && !a.bound
			}
			if g {
				recs = append(recs, t)
				return
			}
		}
		if t.op == OApp && t.name == "strat" && t.args[1] == k && !occurs(k, t.args[0]) {
			out = append(out, t)
			return
		}
		if t.op == OForall || t.op == OExists {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	if len(out) == 0 {
		return recs
	}
	return out
}

func shiftOf(t, k *Term) *Term {
	var res *Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if res != nil || seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == OSelect && !t.args[0].bound {
			d := Sub(t.args[1], k)
			if !d.bound {
				res = d
				return
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return res
}

// ---------- places ----------

type place struct {
	any bool
	lv  *PtrV
	key string
	ref *Term
}

func (u *Unit) leafKeys(p *PtrV) []string {
	key, t := ptrBase(p)
	var out []string
	var rec func(k string, t types.Type)
	rec = func(k string, t types.Type) {
		if ls, ok := opaqueLeaves(t); ok {
			for _, l := range ls {
				out = append(out, k+"."+l.name)
			}
			return
		}
		if st, ok := isStruct(t); ok {
			for i := 0; i < st.NumFields(); i++ {
				rec(k+"."+st.Field(i).Name(), st.Field(i).Type())
			}
			return
		}
		for _, l := range scalarLeaves(t) {
			out = append(out, k+l.name)
		}
	}
	rec(key, t)
	return out
}

func (c *ctx) addr(e ast.Expr) *PtrV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.addr(x.X)
	case *ast.StarExpr:
		v := c.eval(x.X)
		p, ok := v.v.(*PtrV)
		if !ok {
			specFail("place %s", exprStr(e))
		}
		return p
	case *ast.SelectorExpr:
		// address of field
		var base *PtrV
		if v := c.eval(x.X); true {
			if p, ok := v.v.(*PtrV); ok {
				base = p
			}
		}
		if base == nil {
			base = c.addr(x.X)
		}
		st, ok := isStruct(base.pointee())
		if !ok {
			specFail("place %s", exprStr(e))
		}
		i, path := findField(st, x.Sel.Name)
		if i < 0 {
			specFail("place %s", exprStr(e))
		}
		q := base
		tt := base.pointee()
		for _, k := range path {
			s2, ok := isStruct(tt)
			if !ok {
				pv := c.u.load(c.st, q).(*PtrV)
				q = pv
				tt = pv.pointee()
				s2, _ = isStruct(tt)
			}
			q = q.field(k)
			tt = s2.Field(k).Type()
		}
		return q
	}
	specFail("place %s", exprStr(e))
	return nil
}

func (c *ctx) evalPlaces(m *clause) []place {
	e := m.expr
	u := c.u
	var out []place
	if ce, ok := e.(*ast.CallExpr); ok {
		id, _ := ce.Fun.(*ast.Ident)
		switch id.Name {
		case "reader":
			r := c.reader(ce.Args[0])
			if r.bt != nil {
				st, _ := isStruct(r.bt.pointee())
				i, _ := findField(st, "reader")
				for _, k := range u.leafKeys(r.bt.field(i)) {
					out = append(out, place{key: k, ref: r.bt.ref})
				}
			}
			if r.p != nil {
				out = append(out, place{key: "bufio.Reader.$pos", ref: r.p.ref})
			}
			out = append(out, place{key: "$stream.pos", ref: r.rs}, place{key: "$stream.gen", ref: r.rs})
			return out
		case "stream":
			r := c.reader(ce.Args[0])
			return []place{{key: "$stream.pos", ref: r.rs}, {key: "$stream.gen", ref: r.rs}}
		case "buffer":
			v := c.eval(ce.Args[0])
			p := v.v.(*PtrV)
			st, _ := isStruct(p.pointee())
			i, _ := findField(st, "buffer")
			for _, k := range u.leafKeys(p.field(i)) {
				out = append(out, place{key: k, ref: p.ref})
			}
			i, _ = findField(st, "len")
			for _, k := range u.leafKeys(p.field(i)) {
				out = append(out, place{key: k, ref: p.ref})
			}
			return out
		case "sink":
			v := u.resolveIface(c.st, c.eval(ce.Args[0]).v.(*IfaceV))
			if v.typ != nil {
				p, ok := v.val.(*PtrV)
				if !ok || typeKey(p.pointee()) != "bytes.Buffer" {
					specFail("sink of dynamic type %s", v.typ)
				}
				for _, k := range u.leafKeys(p) {
					out = append(out, place{key: k, ref: p.ref})
				}
				return out
			}
			return []place{{key: "$sink.arr", ref: v.ref}, {key: "$sink.len", ref: v.ref}}
		case "any": // any(x.field): the field of every object
			for _, k := range u.leafKeys(c.addr(ce.Args[0])) {
				out = append(out, place{key: k, any: true})
			}
			return out
		case "rows":
			v := c.eval(ce.Args[0])
			switch b := v.v.(type) {
			case *SliceV:
				for _, e := range u.elemLeaves(b.elem) {
					out = append(out, place{key: e.key + e.l.name, ref: b.ref})
				}
				return out
			case *Term:
				mt, ok := v.t.Underlying().(*types.Map)
				if ok {
					out = append(out, place{key: mapKey(mt) + ".dom", ref: b}, place{key: mapKey(mt) + ".card", ref: b})
					for _, e := range u.mapValLeaves(mt) {
						out = append(out, place{key: e.key + e.l.name, ref: b})
					}
					return out
				}
			}
			specFail("rows(%s)", exprStr(ce.Args[0]))
		}
	}
	p := c.addr(e)
	if p.obj > 0 || p.idx != nil {
		return []place{{lv: p}}
	}
	if _, isCell := e.(*ast.StarExpr); isCell && len(p.path) > 0 {
		return []place{{lv: p}}
	}
	for _, k := range u.leafKeys(p) {
		out = append(out, place{key: k, ref: p.ref})
	}
	return out
}
