package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- expressions

type Ex struct {
	k    string // id num str call field index slice un bin forall exists let old cast meta ite
	s    string
	n    *big.Int
	a    []*Ex
	vars []QVar
	pats [][]*Ex
	pos  string
}

type QVar struct{ name, typ string }

type lexer struct {
	toks []string
	i    int
	pos  string
}

var symRe = []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "(", ")", "[", "]", "{", "}", ",", ".", ":", "!", "?", "=", "&", "@"}

func lex(s, pos string) *lexer {
	l := &lexer{pos: pos}
	rs := []rune(s)
	for i := 0; i < len(rs); {
		c := rs[i]
		if unicode.IsSpace(c) {
			i++
			continue
		}
		if unicode.IsLetter(c) || c == '_' || c == '$' {
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$' || rs[j] == '\'') {
				j++
			}
			l.toks = append(l.toks, string(rs[i:j]))
			i = j
			continue
		}
		if unicode.IsDigit(c) {
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j]) || rs[j] == '_') {
				j++
			}
			l.toks = append(l.toks, string(rs[i:j]))
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			l.toks = append(l.toks, string(rs[i:j+1]))
			i = j + 1
			continue
		}
		ok := false
		for _, y := range symRe {
			if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), y) {
				l.toks = append(l.toks, y)
				i += len(y)
				ok = true
				break
			}
		}
		if !ok {
			panic(specErr{pos, fmt.Sprintf("bad character %q in %q", c, s)})
		}
	}
	return l
}

type specErr struct{ pos, msg string }

func (e specErr) Error() string { return e.pos + ": " + e.msg }

func (l *lexer) peek() string {
	if l.i < len(l.toks) {
		return l.toks[l.i]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.i++; return t }
func (l *lexer) expect(t string) {
	if l.peek() != t {
		panic(specErr{l.pos, fmt.Sprintf("expected %q, got %q (in %s)", t, l.peek(), strings.Join(l.toks, " "))})
	}
	l.i++
}
func (l *lexer) accept(t string) bool {
	if l.peek() == t {
		l.i++
		return true
	}
	return false
}

func (l *lexer) ex(k, s string, a ...*Ex) *Ex { return &Ex{k: k, s: s, a: a, pos: l.pos} }

func parseExpr(s, pos string) *Ex {
	l := lex(s, pos)
	e := l.expr()
	if l.i != len(l.toks) {
		panic(specErr{pos, fmt.Sprintf("trailing tokens %v in %q", l.toks[l.i:], s)})
	}
	return e
}

func (l *lexer) expr() *Ex { return l.iff() }

func (l *lexer) iff() *Ex {
	a := l.imp()
	for l.accept("<==>") {
		a = l.ex("bin", "<==>", a, l.imp())
	}
	return a
}
func (l *lexer) imp() *Ex {
	a := l.tern()
	if l.accept("==>") {
		return l.ex("bin", "==>", a, l.imp())
	}
	return a
}
func (l *lexer) tern() *Ex {
	a := l.or()
	if l.accept("?") {
		b := l.tern()
		l.expect(":")
		c := l.tern()
		return l.ex("ite", "", a, b, c)
	}
	return a
}
func (l *lexer) or() *Ex {
	a := l.and()
	for l.accept("||") {
		a = l.ex("bin", "||", a, l.and())
	}
	return a
}
func (l *lexer) and() *Ex {
	a := l.cmp()
	for l.accept("&&") {
		a = l.ex("bin", "&&", a, l.cmp())
	}
	return a
}
func (l *lexer) cmp() *Ex {
	a := l.addx()
	var res *Ex
	for {
		switch t := l.peek(); t {
		case "==", "!=", "<", "<=", ">", ">=":
			l.next()
			b := l.addx()
			c := l.ex("bin", t, a, b)
			if res == nil {
				res = c
			} else {
				res = l.ex("bin", "&&", res, c)
			}
			a = b
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return a
}
func (l *lexer) addx() *Ex {
	a := l.mulx()
	for {
		t := l.peek()
		if t == "+" || t == "-" {
			l.next()
			a = l.ex("bin", t, a, l.mulx())
			continue
		}
		return a
	}
}
func (l *lexer) mulx() *Ex {
	a := l.unary()
	for {
		t := l.peek()
		if t == "*" || t == "/" || t == "%" {
			l.next()
			a = l.ex("bin", t, a, l.unary())
			continue
		}
		return a
	}
}
func (l *lexer) unary() *Ex {
	switch l.peek() {
	case "!":
		l.next()
		return l.ex("un", "!", l.unary())
	case "-":
		l.next()
		return l.ex("un", "-", l.unary())
	case "forall", "exists":
		return l.quant()
	case "let":
		l.next()
		n := l.next()
		l.expect("=")
		v := l.expr()
		l.expect("::")
		b := l.expr()
		return l.ex("let", n, v, b)
	}
	return l.postfix()
}

func (l *lexer) quant() *Ex {
	q := l.next()
	e := l.ex(q, "")
	for {
		n := l.next()
		l.expect(":")
		t := l.typ()
		e.vars = append(e.vars, QVar{n, t})
		if !l.accept(",") {
			break
		}
	}
	for l.accept("{") {
		var p []*Ex
		for {
			p = append(p, l.expr())
			if !l.accept(",") {
				break
			}
		}
		l.expect("}")
		e.pats = append(e.pats, p)
	}
	l.expect("::")
	e.a = []*Ex{l.expr()}
	return e
}

// typ parses a type name: [*] [[]] pkg.Name | name
func (l *lexer) typ() string {
	s := ""
	for {
		if l.accept("*") {
			s += "*"
			continue
		}
		if l.accept("[") {
			l.expect("]")
			s += "[]"
			continue
		}
		break
	}
	s += l.next()
	for l.accept(".") {
		s += "." + l.next()
	}
	return s
}

func (l *lexer) postfix() *Ex {
	e := l.primary()
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = l.ex("field", l.next(), e)
		case "[":
			l.next()
			if l.accept(":") {
				hi := l.expr()
				l.expect("]")
				e = l.ex("slice", "", e, nil, hi)
				continue
			}
			i := l.expr()
			if l.accept(":") {
				var hi *Ex
				if l.peek() != "]" {
					hi = l.expr()
				}
				l.expect("]")
				e = l.ex("slice", "", e, i, hi)
				continue
			}
			l.expect("]")
			e = l.ex("index", "", e, i)
		case "(":
			if e.k != "id" {
				return e
			}
			l.next()
			var as []*Ex
			for l.peek() != ")" {
				as = append(as, l.expr())
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			switch e.s {
			case "old", "entry":
				e = l.ex(e.s, "", as...)
			default:
				e = l.ex("call", e.s, as...)
			}
		default:
			return e
		}
	}
}

func (l *lexer) primary() *Ex {
	t := l.next()
	if t == "" {
		panic(specErr{l.pos, "unexpected end of expression"})
	}
	if t == "(" {
		e := l.expr()
		l.expect(")")
		return e
	}
	if t == "@" { // @type(T): type tag ; @as(T, e): view a reference or interface payload as T
		f := l.next()
		l.expect("(")
		ty := l.typ()
		var as []*Ex
		for l.accept(",") {
			as = append(as, l.expr())
		}
		l.expect(")")
		e := l.ex("at", f, as...)
		e.vars = []QVar{{"", ty}}
		return e
	}
	if t[0] >= '0' && t[0] <= '9' {
		n, ok := new(big.Int).SetString(strings.ReplaceAll(t, "_", ""), 0)
		if !ok {
			panic(specErr{l.pos, "bad number " + t})
		}
		return &Ex{k: "num", n: n, pos: l.pos}
	}
	if t[0] == '"' {
		return &Ex{k: "str", s: t[1 : len(t)-1], pos: l.pos}
	}
	if t[0] == '$' {
		return &Ex{k: "meta", s: t, pos: l.pos}
	}
	return &Ex{k: "id", s: t, pos: l.pos}
}

// ---------------------------------------------------------------- spec files

type Clause struct {
	kind  string
	label string
	text  string
	ex    *Ex
	pos   string
	key   []string // modifies: heap keys
	at    []*Ex
	bv    *QVar
	metas []QVar // template metavariables
}

type Contract struct {
	kind    string // func iface lib
	name    string
	params  []string
	results []string
	cl      []*Clause
	flags   map[string]string
	pos     string
	file    string
}

type Def struct {
	name   string
	params []QVar
	ret    string
	body   *Ex
	reads  []string // heapfun
	heap   bool
	pos    string
	file   string
}

type Lemma struct {
	name   string
	params []QVar
	cl     []*Clause // requires ensures trigger induct uses
	axiom  bool
	pos    string
	file   string
}

type SmtBlock struct {
	text string
	file string
	pos  string
}

type Sig struct {
	args []string
	ret  string
}

type Prop struct {
	id    string
	items []string // contract keys / lemma names
	flags map[string]string
}

type Specs struct {
	contracts map[string]*Contract
	order     []string
	defs      map[string]*Def
	lemmas    map[string]*Lemma
	watches  []Watch
	lemmaOrd  []string
	smt       []SmtBlock
	sigs      map[string]Sig
	selOf     map[string]string   // selector: its constructor and place
	ctors     map[string][]string // constructors with arguments of the datatypes declared in smt blocks
	props     map[string]*Prop
	modules   map[string]*Module // file -> uses
	sigMod    map[string]string
	recs      map[string]*Rec
	recOrd    []string
}

type Module struct {
	name string
	uses []string
}

var clauseKW = map[string]bool{"requires": true, "ensures": true, "modifies": true, "invariant": true, "decreases": true, "may_panic": true,
	"flag": true, "extensional": true, "trigger": true, "opaque": true, "induct": true, "uses": true, "touches": true, "measure": true, "let": true, "hint": true, "assert": true, "unroll": true, "case": true}

func LoadSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	sp = &Specs{contracts: map[string]*Contract{}, defs: map[string]*Def{}, lemmas: map[string]*Lemma{}, sigs: map[string]Sig{}, props: map[string]*Prop{}, modules: map[string]*Module{}, sigMod: map[string]string{}, recs: map[string]*Rec{}}
	sp.readSigs(baseTheory, "prelude")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	texts := map[string]string{}
	for _, f := range fs {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		texts[strings.TrimSuffix(filepath.Base(f), ".spec")] = string(b)
	}
	done := map[string]bool{} // a module after those it uses
	var parse func(m string)
	parse = func(m string) {
		if done[m] {
			return
		}
		done[m] = true
		for _, l := range strings.Split(texts[m], "\n") {
			if f := strings.Fields(l); len(f) > 1 && f[0] == "use" && l[0] == 'u' {
				for _, u := range f[1:] {
					if _, ok := texts[u]; ok {
						parse(u)
					}
				}
			}
		}
		sp.parseFile(m+".spec", expandForeach(texts[m]))
	}
	for _, m := range sortedKeys(texts) {
		parse(m)
	}
	return sp, nil
}

var foreachRe = regexp.MustCompile(`(?s)\nforeach ([^\n]*)\n(.*?)\nendforeach`)

func expandForeach(s string) string {
	s = "\n" + s
	for {
		m := foreachRe.FindStringSubmatchIndex(s)
		if m == nil {
			return s
		}
		head, body := s[m[2]:m[3]], s[m[4]:m[5]]
		// head: A,B in (x,y) (z,w)
		parts := strings.SplitN(head, " in ", 2)
		names := strings.Split(strings.TrimSpace(parts[0]), ",")
		var out strings.Builder
		for _, tup := range regexp.MustCompile(`\(([^)]*)\)`).FindAllStringSubmatch(parts[1], -1) {
			vals := strings.Split(tup[1], ",")
			b := body
			for i, n := range names {
				b = strings.ReplaceAll(b, "${"+strings.TrimSpace(n)+"}", strings.TrimSpace(vals[i]))
			}
			out.WriteString("\n" + b + "\n")
		}
		s = s[:m[0]] + out.String() + s[m[1]:]
	}
}

var seqRe = regexp.MustCompile(`\bSeq\b`)

func (sp *Specs) parseFile(file, src string) {
	mod := &Module{name: strings.TrimSuffix(file, ".spec")}
	sp.modules[mod.name] = mod
	lines := strings.Split(src, "\n")
	var cur *Contract
	var curL *Lemma
	var curC *Clause
	flush := func() {
		if curC == nil {
			return
		}
		c := curC
		curC = nil
		sp.finishClause(c, cur, curL)
	}
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		pos := fmt.Sprintf("%s:%d", file, i)
		if k := strings.Index(ln, "//"); k >= 0 {
			ln = ln[:k]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := t
		if k := strings.IndexAny(t, " \t{"); k >= 0 {
			w = t[:k]
		}
		rest := strings.TrimSpace(strings.TrimPrefix(t, w))
		indented := ln[0] == ' ' || ln[0] == '\t'
		if indented {
			if clauseKW[strings.TrimSuffix(w, ":")] && (cur != nil || curL != nil) {
				flush()
				curC = &Clause{kind: w, text: rest, pos: pos}
				continue
			}
			if curC != nil {
				curC.text += " " + t
				continue
			}
			panic(specErr{pos, "stray line: " + t})
		}
		flush()
		switch w {
		case "use":
			mod.uses = append(mod.uses, strings.Fields(rest)...)
		case "smt":
			var sb strings.Builder
			for i++; i < len(lines) && strings.TrimSpace(lines[i]) != "}"; i++ {
				sb.WriteString(lines[i] + "\n")
			}
			txt := seqRe.ReplaceAllString(sb.String(), "QSeq")
			sp.smt = append(sp.smt, SmtBlock{txt, mod.name, pos})
			before := map[string]bool{}
			for k := range sp.sigs {
				before[k] = true
			}
			sp.readSigs(txt, pos)
			for k := range sp.sigs {
				if !before[k] {
					sp.sigMod[k] = mod.name
				}
			}
			cur, curL = nil, nil
		case "func", "iface", "lib":
			cur = parseHead(w, rest, pos)
			cur.file = mod.name
			curL = nil
			if _, dup := sp.contracts[cur.name]; dup {
				panic(specErr{pos, "duplicate contract " + cur.name})
			}
			sp.contracts[cur.name] = cur
			sp.order = append(sp.order, cur.name)
		case "lemma", "axiom": // an axiom is a definition whose justification the file states; it is reported
			curL = &Lemma{pos: pos, file: mod.name, axiom: w == "axiom"}
			cur = nil
			k := strings.Index(rest, "(")
			curL.name = strings.TrimSpace(rest[:k])
			curL.params = parseParams(rest[k:], pos)
			sp.lemmas[curL.name] = curL
			sp.lemmaOrd = append(sp.lemmaOrd, curL.name)
		case "def", "heapfun", "rec":
			for i+1 < len(lines) && len(lines[i+1]) > 0 && (lines[i+1][0] == ' ' || lines[i+1][0] == '\t') {
				i++
				x := lines[i]
				if k := strings.Index(x, "//"); k >= 0 {
					x = x[:k]
				}
				rest += " " + strings.TrimSpace(x)
			}
			if w == "rec" {
				sp.parseRec(rest, pos, mod.name)
			} else {
				sp.parseDef(w, rest, pos, mod.name)
			}
			cur, curL = nil, nil
		case "watch": // watch P(keys): every store to one of the keys is marked with P(before, after, reference)
			k := strings.Index(rest, "(")
			wt := Watch{strings.TrimSpace(rest[:k]), mod.name, nil}
			for _, y := range strings.FieldsFunc(strings.Trim(rest[k:], "() "), func(r rune) bool { return r == ',' || r == ' ' }) {
				wt.keys = append(wt.keys, expandKey(y)...)
			}
			sp.watches = append(sp.watches, wt)
			cur, curL = nil, nil
		case "property":
			fs := strings.Fields(rest)
			p := sp.props[fs[0]]
			if p == nil {
				p = &Prop{id: fs[0], flags: map[string]string{}}
				sp.props[fs[0]] = p
			}
			for i+1 < len(lines) && len(lines[i+1]) > 0 && (lines[i+1][0] == ' ' || lines[i+1][0] == '\t') {
				i++
				x := lines[i]
				if k := strings.Index(x, "//"); k >= 0 {
					x = x[:k]
				}
				fs = append(fs, strings.Fields(x)...)
			}
			p.items = append(p.items, fs[1:]...)
			cur, curL = nil, nil
		default:
			panic(specErr{pos, "unknown declaration: " + t})
		}
	}
	flush()
}

// Watch declares a marker predicate: it has no definition, the engine states it
// at every store so that lemmas can be triggered by stores.
type Watch struct {
	name, file string
	keys       []string
}

func (sp *Specs) uses(mod, file string, seen map[string]bool) bool {
	if mod == file {
		return true
	}
	m := sp.modules[mod]
	if m == nil || seen[mod] {
		return false
	}
	seen[mod] = true
	for _, u := range m.uses {
		if sp.uses(u, file, seen) {
			return true
		}
	}
	return false
}

func parseParams(s, pos string) []QVar {
	l := lex(s, pos)
	l.expect("(")
	var out []QVar
	for l.peek() != ")" {
		n := l.next()
		l.expect(":")
		out = append(out, QVar{n, l.typ()})
		if !l.accept(",") {
			break
		}
	}
	l.expect(")")
	return out
}

func (sp *Specs) parseDef(w, rest, pos, file string) {
	k := strings.Index(rest, "(")
	d := &Def{name: strings.TrimSpace(rest[:k]), heap: w == "heapfun", pos: pos, file: file}
	depth, j := 0, k
	for ; j < len(rest); j++ {
		if rest[j] == '(' {
			depth++
		}
		if rest[j] == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	d.params = parseParams(rest[k:j+1], pos)
	rest = strings.TrimSpace(rest[j+1:])
	if d.heap {
		p := strings.SplitN(rest, " reads ", 2)
		d.ret = strings.TrimSpace(p[0])
		if len(p) > 1 {
			d.reads = strings.Fields(p[1])
		}
	} else {
		p := strings.SplitN(rest, "=", 2)
		if len(p) < 2 {
			panic(specErr{pos, "def without body: " + rest})
		}
		d.ret = strings.TrimSpace(p[0])
		d.body = parseExpr(p[1], pos)
	}
	if _, dup := sp.defs[d.name]; dup {
		panic(specErr{pos, "duplicate def " + d.name})
	}
	sp.defs[d.name] = d
}

func parseHead(kind, s, pos string) *Contract {
	c := &Contract{kind: kind, pos: pos, flags: map[string]string{}}
	// name(params) (results) ; name may contain (*T)
	i := 0
	// find the '(' that starts params: skip "(*" receiver part
	for i < len(s) {
		if s[i] == '(' && !(i+1 < len(s) && s[i+1] == '*') && !(strings.HasSuffix(s[:i], ".")) {
			break
		}
		if s[i] == '(' {
			for s[i] != ')' {
				i++
			}
		}
		i++
	}
	c.name = strings.TrimSpace(s[:i])
	rest := s[i:]
	e := strings.Index(rest, ")")
	if e < 0 {
		panic(specErr{pos, "bad contract head " + s})
	}
	for _, p := range strings.Split(rest[1:e], ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.params = append(c.params, p)
		}
	}
	rest = strings.TrimSpace(rest[e+1:])
	rest = strings.Trim(rest, "()")
	for _, p := range strings.Split(rest, ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.results = append(c.results, p)
		}
	}
	return c
}

var labelRe = regexp.MustCompile(`^\[([A-Za-z0-9_.\- ]+)\]\s*`)

func (sp *Specs) finishClause(c *Clause, ct *Contract, lm *Lemma) {
	if m := labelRe.FindStringSubmatch(c.text); m != nil {
		c.label = m[1]
		c.text = c.text[len(m[0]):]
	}
	switch c.kind {
	case "requires", "ensures", "decreases", "invariant", "may_panic", "measure", "assert", "hint", "trigger", "unroll", "case":
		if c.kind == "trigger" {
			l := lex(c.text, c.pos)
			for {
				c.at = append(c.at, l.expr())
				if !l.accept(",") {
					break
				}
			}
		} else {
			t := c.text
			if (c.kind == "invariant" || c.kind == "measure") && strings.HasPrefix(t, "for ") {
				k := strings.Index(t, "::")
				if k < 0 {
					panic(specErr{c.pos, "template without ::"})
				}
				for _, q := range strings.Split(t[4:k], ",") {
					p := strings.SplitN(q, ":", 2)
					c.metas = append(c.metas, QVar{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
				}
				t = t[k+2:]
			}
			c.ex = parseExpr(t, c.pos)
		}
	case "let":
		p := strings.SplitN(c.text, "=", 2)
		c.label = strings.TrimSpace(p[0])
		c.ex = parseExpr(p[1], c.pos)
	case "flag":
		for _, f := range strings.Fields(c.text) {
			kv := strings.SplitN(f, "=", 2)
			if len(kv) == 1 {
				kv = append(kv, "1")
			}
			ct.flags[kv[0]] = kv[1]
		}
		return
	case "modifies":
		// keys [at e,e | where x: T :: e]
		t := c.text
		if k := strings.Index(t, " where "); k >= 0 {
			l := lex(t[k+7:], c.pos)
			n := l.next()
			c.bv = &QVar{n, "int"}
			l.expect("::")
			c.ex = l.expr()
			if l.i != len(l.toks) {
				panic(specErr{c.pos, "trailing tokens in modifies"})
			}
			t = t[:k]
		} else if k := strings.Index(t, " at "); k >= 0 {
			l := lex(t[k+4:], c.pos)
			for {
				c.at = append(c.at, l.expr())
				if !l.accept(",") {
					break
				}
			}
			t = t[:k]
		}
		for _, k := range strings.Split(t, ",") {
			c.key = append(c.key, expandKey(strings.TrimSpace(k))...)
		}
	case "touches":
		for _, k := range strings.Split(c.text, ",") {
			c.key = append(c.key, expandKey(strings.TrimSpace(k))...)
		}
	}
	if ct != nil {
		ct.cl = append(ct.cl, c)
	} else {
		lm.cl = append(lm.cl, c)
	}
}

// expandKey: "M:byte", "util.Key.keys", "util.Key.{a b}"
func expandKey(k string) []string {
	if strings.HasPrefix(k, "M:") || strings.HasPrefix(k, "P:") || strings.HasPrefix(k, "G:") {
		return []string{k}
	}
	if i := strings.Index(k, "{"); i >= 0 {
		var out []string
		for _, f := range strings.Fields(strings.Trim(k[i:], "{}")) {
			out = append(out, "F:"+k[:i]+f)
		}
		return out
	}
	return []string{"F:" + k}
}

// ---------------------------------------------------------------- s-expressions (signatures of spec functions)

type sx struct {
	atom string
	l    []*sx
}

func (s *sx) String() string {
	if s.l == nil && s.atom != "" {
		return s.atom
	}
	var p []string
	for _, x := range s.l {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSx(src string) []*sx {
	var st [][]*sx
	cur := []*sx{}
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '(':
			st = append(st, cur)
			cur = []*sx{}
			i++
		case c == ')':
			n := &sx{l: cur}
			if len(cur) == 0 {
				n.l = []*sx{}
			}
			if len(st) == 0 {
				panic("unbalanced s-expression near: " + src[max(0, i-200):i+1])
			}
			cur = append(st[len(st)-1], n)
			st = st[:len(st)-1]
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for src[j] != '|' {
				j++
			}
			cur = append(cur, &sx{atom: src[i : j+1]})
			i = j + 1
		default:
			j := i
			for j < len(src) && !strings.ContainsRune("() \n\t\r;", rune(src[j])) {
				j++
			}
			cur = append(cur, &sx{atom: src[i:j]})
			i = j
		}
	}
	if len(st) != 0 {
		panic("unbalanced s-expression (missing close)")
	}
	return cur
}

func (sp *Specs) readSigs(text, pos string) {
	defer func() {
		if r := recover(); r != nil {
			panic(specErr{pos, fmt.Sprint(r)})
		}
	}()
	for _, s := range parseSx(text) {
		if len(s.l) == 0 {
			continue
		}
		switch s.l[0].atom {
		case "declare-fun", "define-fun", "define-fun-rec":
			var as []string
			for _, a := range s.l[2].l {
				if s.l[0].atom == "declare-fun" {
					as = append(as, a.String())
				} else {
					as = append(as, a.l[1].String())
				}
			}
			sp.sigs[s.l[1].atom] = Sig{as, s.l[3].String()}
		case "declare-const":
			sp.sigs[s.l[1].atom] = Sig{nil, s.l[2].String()}
		case "declare-datatypes":
			names := s.l[1].l
			for i, dt := range s.l[2].l {
				nm := names[i].l[0].atom
				for _, ctor := range dt.l {
					var as []string
					if ctor.atom != "" {
						sp.sigs[ctor.atom] = Sig{nil, nm}
						sp.sigs["is_"+ctor.atom] = Sig{[]string{nm}, "Bool"}
						continue
					}
					for _, f := range ctor.l[1:] {
						sp.sigs[f.l[0].atom] = Sig{[]string{nm}, f.l[1].String()}
						if sp.selOf == nil {
							sp.selOf = map[string]string{}
						}
						sp.selOf[f.l[0].atom] = fmt.Sprintf("%s#%d", ctor.l[0].atom, len(as))
						as = append(as, f.l[1].String())
					}
					sp.sigs[ctor.l[0].atom] = Sig{as, nm}
					if sp.ctors == nil {
						sp.ctors = map[string][]string{}
					}
					sp.ctors[nm] = append(sp.ctors[nm], ctor.l[0].atom)
					sp.sigs["is_"+ctor.l[0].atom] = Sig{[]string{nm}, "Bool"}
				}
			}
		}
	}
}
