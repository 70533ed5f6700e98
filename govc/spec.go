package main

// Contract files: parsing of clauses and of specification expressions.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Ex is a specification expression.
type Ex struct {
	op   string // int str id call field index slice un bin cond seq
	name string
	n    *big.Int
	args []*Ex
	src  string
}

type Clause struct {
	kind string // requires ensures sets modifies panics maypanic use nilable fresh ...
	name string
	ex   *Ex
	loc  *Ex
	exs  []*Ex
	text string
	line string

	always bool // an ensures clause that also holds when a panic leaves the function
}

type Contract struct {
	key        string
	params     []string
	results    []string
	props      map[string]bool
	clauses    []*Clause
	file       string
	nilable    map[string]bool
	panics     *Ex      // exact panic condition
	may        bool     // may panic arbitrarily
	mayWhen    *Ex      // ... but only under this condition
	serves     []string // routes whose handlers are verified here
	terminates bool
	inline     bool // verified, but callers still inline the body
	assumed    string
	bounded    string
	deferred   bool // runs as a deferred call
	auto       bool // generated for the lock sweep
}

type SpecFn struct {
	name   string
	params []string
	sorts  []Sort
	elems  []*rng
	ret    Sort
	body   *Ex
	rec    bool
	clen   *Ex
	elem   *rng
	rrng   *rng
	facts  []*Ex
	assume string
}

type Lemma struct {
	name    string
	params  []string
	sorts   []Sort
	elems   []*rng
	req     []*Ex
	ens     []*Ex
	uses    []*LemmaUse
	assumed string
	props   map[string]bool
}

type LemmaUse struct {
	cond *Ex
	name string
	args []*Ex
}

type Specs struct {
	contracts map[string]*Contract
	fns       map[string]*SpecFn
	lemmas    map[string]*Lemma
	order     []string
	guards    map[string]string // "storage.DeviceCache.cacheByPlate" -> "mutex"
	atomics   map[string]string
	singles   map[string][]string // extra functions that may read a singleton
	mapinvs   map[string]*SpecFn  // invariant of the entries of a map field
	typeinvs  map[string]string   // struct type -> predicate every function that writes its fields re-establishes
	templates []*Ex
	routes    map[string]*Contract // "GET /path" -> contract of its handler
}

// ---- lexer ----

type tok struct {
	k string // id int str op eof
	s string
}

func lex(s string) ([]tok, error) {
	var out []tok
	ops := []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "++", ":=", "..", "<<", ">>"}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F' || s[j] == 'x' || s[j] == '_') {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", u})
			i = j + 1
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '@' || c == '$':
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			hit := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					hit = true
					break
				}
			}
			if !hit {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

type parser struct {
	ts []tok
	i  int
}

func (p *parser) peek() tok { return p.ts[p.i] }
func (p *parser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser) isOp(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *parser) expect(s string) {
	if !p.isOp(s) {
		panic(fmt.Sprintf("expected %q, found %q", s, p.peek().s))
	}
	p.i++
}

var binPrec = map[string]int{
	"<==>": 2, "==>": 3, "||": 4, "&&": 5,
	"==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6,
	"++": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9, "<<": 9, ">>": 9,
}

func (p *parser) expr() *Ex {
	c := p.bin(1)
	if p.isOp("?") {
		p.next()
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &Ex{op: "cond", args: []*Ex{c, a, b}}
	}
	return c
}

func (p *parser) bin(min int) *Ex {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *Ex
		if t.s == "==>" { // right associative
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &Ex{op: "bin", name: t.s, args: []*Ex{l, r}}
	}
}

func (p *parser) unary() *Ex {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		return &Ex{op: "un", name: t.s, args: []*Ex{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Ex) *Ex {
	for {
		switch {
		case p.isOp("."):
			p.next()
			t := p.next()
			if t.k != "id" {
				panic("field name expected, found " + t.s)
			}
			e = &Ex{op: "field", name: t.s, args: []*Ex{e}}
		case p.isOp("["):
			p.next()
			if p.isOp(":") {
				p.next()
				hi := p.expr()
				p.expect("]")
				e = &Ex{op: "slice", args: []*Ex{e, nil, hi}}
				continue
			}
			i := p.expr()
			if p.isOp(":") {
				p.next()
				var hi *Ex
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Ex{op: "slice", args: []*Ex{e, i, hi}}
				continue
			}
			p.expect("]")
			e = &Ex{op: "index", args: []*Ex{e, i}}
		case p.isOp("("):
			p.next()
			var as []*Ex
			for !p.isOp(")") {
				as = append(as, p.expr())
				if p.isOp(",") {
					p.next()
				}
			}
			p.next()
			n := ""
			if e.op == "id" {
				n = e.name
			} else if e.op == "field" && e.args[0].op == "id" {
				n = e.args[0].name + "." + e.name
			} else {
				panic("call of a non-name")
			}
			e = &Ex{op: "call", name: n, args: as}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Ex {
	t := p.next()
	switch t.k {
	case "int":
		n, ok := new(big.Int).SetString(strings.ReplaceAll(t.s, "_", ""), 0)
		if !ok {
			panic("bad number " + t.s)
		}
		return &Ex{op: "int", n: n}
	case "str":
		return &Ex{op: "str", name: t.s}
	case "id":
		return &Ex{op: "id", name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
		if t.s == "[" {
			var as []*Ex
			for !p.isOp("]") {
				as = append(as, p.expr())
				if p.isOp(",") {
					p.next()
				}
			}
			p.next()
			return &Ex{op: "seq", args: as}
		}
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

func parseEx(s string) (e *Ex, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{ts: ts}
	e = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.peek().s, s)
	}
	e.src = strings.Join(strings.Fields(s), " ")
	return e, nil
}

func mustEx(s, where string) *Ex {
	e, err := parseEx(s)
	if err != nil {
		panic(where + ": " + err.Error())
	}
	return e
}

// parseSort: int bool seq bytes val byte u16 u32 ...
func parseSort(s string) (Sort, *rng, *rng) {
	switch strings.TrimSpace(s) {
	case "int":
		return SInt, nil, nil
	case "nat":
		return SInt, nil, &rng{lo: big.NewInt(0)}
	case "byte":
		return SInt, nil, byteRng
	case "bool":
		return SBool, nil, nil
	case "bytes":
		return SSeqI, byteRng, nil
	case "seq":
		return SSeqI, nil, nil
	case "seqv":
		return SSeqV, nil, nil
	case "val":
		return SVal, nil, nil
	}
	panic("unknown sort " + s)
}

var clauseKw = map[string]bool{"atomic": true, "func": true, "fn": true, "rec": true, "lemma": true, "prop": true, "requires": true,
	"ensures": true, "sets": true, "modifies": true, "panics": true, "maypanic": true, "use": true, "nilable": true,
	"inline": true, "assumed": true, "guard": true, "uf": true, "len": true, "elem": true, "fact": true, "bounded": true,
	"template": true, "begins": true, "route": true, "serves": true, "finally": true, "deferred": true, "rng": true, "cases": true, "root": true, "singleton": true, "mapinv": true, "typeinv": true, "terminates": true}

// splitTop splits on commas that are not nested.
func splitTop(s string, sep byte) []string {
	var out []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case sep:
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" {
		out = append(out, t)
	}
	return out
}

// activeProp: the property being checked; "" checks all clauses.
var activeProp string

func loadSpecs(dir string) *Specs {
	sp := &Specs{contracts: map[string]*Contract{}, fns: map[string]*SpecFn{}, lemmas: map[string]*Lemma{}, guards: map[string]string{}, singles: map[string][]string{}, atomics: map[string]string{}, mapinvs: map[string]*SpecFn{}, typeinvs: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		type item struct{ kw, rest, where string }
		var items []item
		for ln, l := range strings.Split(string(b), "\n") {
			if i := strings.Index(l, "//"); i >= 0 {
				l = l[:i]
			}
			t := strings.TrimSpace(l)
			if t == "" {
				continue
			}
			kw := t
			if i := strings.IndexAny(t, " \t:"); i >= 0 {
				kw = t[:i]
			}
			if clauseKw[kw] {
				items = append(items, item{kw, strings.TrimSpace(strings.TrimPrefix(t[len(kw):], ":")), fmt.Sprintf("%s:%d", filepath.Base(f), ln+1)})
			} else {
				if len(items) == 0 {
					panic(f + ": text before any clause: " + t)
				}
				items[len(items)-1].rest += " " + t
			}
		}
		var c *Contract
		var lem *Lemma
		var sf *SpecFn
		for _, it := range items {
			// a clause may be restricted to some properties: @C11,C12 or to all others: @-C11,C12
			if strings.HasPrefix(it.rest, "@") {
				tag, rest, _ := strings.Cut(it.rest, " ")
				it.rest = strings.TrimSpace(rest)
				neg := strings.HasPrefix(tag, "@-")
				in := activeProp == ""
				for _, p := range strings.Split(strings.TrimLeft(tag, "@-"), ",") {
					in = in || p == activeProp
				}
				if activeProp != "" && in == neg {
					continue
				}
			}
			switch it.kw {
			case "func":
				c = parseFuncHead(it.rest)
				c.file = it.where
				if sp.contracts[c.key] != nil {
					panic(it.where + ": duplicate contract " + c.key)
				}
				sp.contracts[c.key] = c
				sp.order = append(sp.order, c.key)
				lem = nil
			case "route":
				c = parseFuncHead(it.rest)
				c.file = it.where
				if sp.routes == nil {
					sp.routes = map[string]*Contract{}
				}
				sp.routes[c.key] = c
				lem = nil
			case "serves":
				c.serves = append(c.serves, it.rest)
			case "fn", "rec", "uf":
				sf = parseFn(it.kw, it.rest, it.where)
				if sp.fns[sf.name] != nil {
					panic(it.where + ": duplicate function " + sf.name)
				}
				sp.fns[sf.name] = sf
				c, lem = nil, nil
			case "len":
				sf.clen = mustEx(it.rest, it.where)
			case "elem":
				sf.elem = byteRng
			case "rng":
				p := strings.Fields(it.rest)
				lo, _ := new(big.Int).SetString(p[0], 0)
				hi, _ := new(big.Int).SetString(p[1], 0)
				sf.rrng = &rng{lo, hi}
			case "fact":
				sf.facts = append(sf.facts, mustEx(it.rest, it.where))
			case "lemma":
				lem = parseLemmaHead(it.rest)
				sp.lemmas[lem.name] = lem
				c = nil
			case "guard":
				p := strings.Fields(it.rest)
				sp.guards[p[0]] = p[1]
			case "atomic": // pkg.T.field FUNC: only FUNC changes the field, only atomically
				p := strings.Fields(it.rest)
				sp.atomics[p[0]] = p[1]
			case "mapinv": // pkg.T.f(k, v) = expr
				mi := parseFn("fn", it.rest, it.where)
				sp.mapinvs[mi.name] = mi
				c, lem = nil, nil
			case "typeinv": // pkg.T predicate
				p := strings.Fields(it.rest)
				sp.typeinvs[p[0]] = p[1]
			case "singleton": // NAME reads FN...
				p := strings.Fields(it.rest)
				sp.singles[p[0]] = p[2:]
			case "template":
				sp.templates = append(sp.templates, mustEx(it.rest, it.where))
			case "assumed":
				if lem != nil {
					lem.assumed = it.rest
				} else if c != nil {
					c.assumed = it.rest
				} else {
					sf.assume = it.rest
				}
			case "bounded":
				c.bounded = it.rest
			case "prop":
				for _, x := range strings.Fields(it.rest) {
					if lem != nil {
						lem.props[x] = true
					} else {
						c.props[x] = true
					}
				}
			case "requires":
				e := mustEx(it.rest, it.where)
				if lem != nil {
					lem.req = append(lem.req, e)
				} else {
					c.clauses = append(c.clauses, &Clause{kind: "requires", ex: e, text: it.rest, line: it.where})
				}
			case "ensures":
				name, body := "", it.rest
				if i := strings.Index(body, ":"); i > 0 && isIdent(body[:i]) && !strings.HasPrefix(body[i:], ":=") {
					name, body = body[:i], body[i+1:]
				}
				e := mustEx(body, it.where)
				if lem != nil {
					lem.ens = append(lem.ens, e)
				} else {
					if name == "" {
						name = fmt.Sprintf("post%d", len(c.clauses))
					}
					c.clauses = append(c.clauses, &Clause{kind: "ensures", name: name, ex: e, text: body, line: it.where})
				}
			case "finally": // holds on every exit, also when a panic leaves the function
				name, body := "finally", it.rest
				if i := strings.Index(body, ":"); i > 0 && isIdent(body[:i]) {
					name, body = body[:i], body[i+1:]
				}
				c.clauses = append(c.clauses, &Clause{kind: "ensures", always: true, name: name, ex: mustEx(body, it.where), text: body, line: it.where})
			case "deferred": // verified as a deferred call, with and without a panic under way
				c.deferred = true
			case "sets", "begins":
				i := strings.Index(it.rest, ":=")
				if i < 0 {
					panic(it.where + ": sets without :=")
				}
				c.clauses = append(c.clauses, &Clause{kind: it.kw, loc: mustEx(it.rest[:i], it.where), ex: mustEx(it.rest[i+2:], it.where), text: it.rest, line: it.where})
			case "modifies":
				var xs []*Ex
				var cond *Ex
				ls := it.rest
				if i := strings.Index(ls, " when "); i >= 0 {
					cond = mustEx(ls[i+6:], it.where)
					ls = ls[:i]
				}
				for _, s := range splitTop(ls, ',') {
					xs = append(xs, mustEx(s, it.where))
				}
				c.clauses = append(c.clauses, &Clause{kind: "modifies", exs: xs, ex: cond, text: it.rest, line: it.where})
			case "panics":
				c.panics = mustEx(strings.TrimPrefix(it.rest, "when"), it.where)
			case "cases":
				c.clauses = append(c.clauses, &Clause{kind: "cases", ex: mustEx(it.rest, it.where), text: it.rest, line: it.where})
			case "terminates":
				c.terminates = true
			case "maypanic":
				if w := strings.TrimSpace(strings.TrimPrefix(it.rest, "when")); w != "" {
					c.mayWhen = mustEx(w, it.where)
				}
				c.may = true
			case "inline":
				c.inline = true
			case "nilable":
				for _, x := range strings.Fields(strings.ReplaceAll(it.rest, ",", " ")) {
					c.nilable[x] = true
				}
			case "use":
				var cond *Ex
				body := it.rest
				if i := strings.Index(body, " when "); i >= 0 {
					cond = mustEx(body[i+6:], it.where)
					body = body[:i]
				}
				e := mustEx(body, it.where)
				if lem != nil {
					lem.uses = append(lem.uses, &LemmaUse{cond: cond, name: e.name, args: e.args})
				} else {
					c.clauses = append(c.clauses, &Clause{kind: "use", name: e.name, exs: e.args, ex: cond, text: it.rest, line: it.where})
				}
			}
		}
	}
	return sp
}

func isIdent(s string) bool {
	for _, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
			return false
		}
	}
	return s != ""
}

// parseFuncHead: pkg.(*T).M(a, b) (r, err)
func parseFuncHead(s string) *Contract {
	c := &Contract{props: map[string]bool{}, nilable: map[string]bool{}}
	// the parameter list is the first "(" preceded by an identifier character
	i := -1
	for k := 1; k < len(s); k++ {
		if s[k] == '(' && s[k-1] != '.' && s[k-1] != ' ' {
			i = k
			break
		}
	}
	if i < 0 {
		panic("bad func head " + s)
	}
	c.key = strings.TrimSpace(s[:i])
	j := strings.Index(s[i:], ")") + i
	c.params = splitTop(s[i+1:j], ',')
	rest := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(rest, "(") {
		c.results = splitTop(rest[1:strings.Index(rest, ")")], ',')
	}
	return c
}

func parseFn(kw, s, where string) *SpecFn {
	i := strings.Index(s, "(")
	j := strings.Index(s, ")")
	f := &SpecFn{name: strings.TrimSpace(s[:i]), rec: kw != "fn"}
	for _, p := range splitTop(s[i+1:j], ',') {
		q := strings.SplitN(p, ":", 2)
		f.params = append(f.params, strings.TrimSpace(q[0]))
		if len(q) == 2 {
			so, el, _ := parseSort(q[1])
			f.sorts = append(f.sorts, so)
			f.elems = append(f.elems, el)
		}
	}
	rest := s[j+1:]
	body := ""
	if k := strings.Index(rest, "="); k >= 0 {
		body = rest[k+1:]
		rest = rest[:k]
	}
	rest = strings.TrimSpace(rest)
	if strings.HasPrefix(rest, ":") {
		so, el, r := parseSort(rest[1:])
		f.ret, f.elem, f.rrng = so, el, r
	}
	if strings.TrimSpace(body) != "" {
		f.body = mustEx(body, where)
	}
	return f
}

func parseLemmaHead(s string) *Lemma {
	i := strings.Index(s, "(")
	j := strings.LastIndex(s, ")")
	l := &Lemma{name: strings.TrimSpace(s[:i]), props: map[string]bool{}}
	for _, p := range splitTop(s[i+1:j], ',') {
		q := strings.SplitN(p, ":", 2)
		l.params = append(l.params, strings.TrimSpace(q[0]))
		so, el, _ := parseSort(q[1])
		l.sorts = append(l.sorts, so)
		l.elems = append(l.elems, el)
	}
	return l
}
