// Package symsql is a small SQL server in memory: it parses the concrete text of the statements the code
// under test sends and executes them on rows whose values may be symbolic.
package symsql

import (
	"errors"
	"strconv"
	"strings"
)

const (
	MySQL = iota
	Postgres
	SQLite
)

type tok struct {
	k byte // i identifier, q quoted identifier, n number, s string, ? placeholder, p punctuation, e end
	s string
	n int
}

func syntax(what string) error { return errors.New("syntax error: " + what) }

func isLetter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func lex(dialect int, q string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case isLetter(c):
			j := i
			for j < len(q) && (isLetter(q[j]) || isDigit(q[j])) {
				j++
			}
			out = append(out, tok{k: 'i', s: q[i:j]})
			i = j
		case isDigit(c):
			j := i
			for j < len(q) && (isDigit(q[j]) || q[j] == '.') {
				j++
			}
			if j < len(q) && isLetter(q[j]) {
				return nil, syntax("number followed by letters")
			}
			out = append(out, tok{k: 'n', s: q[i:j]})
			i = j
		case c == '`' || c == '"':
			if c == '`' && dialect == Postgres {
				return nil, syntax("unexpected `")
			}
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(q) {
					return nil, syntax("unterminated quote")
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(q[j])
				j++
			}
			i = j + 1
			if c == '"' && dialect == MySQL {
				out = append(out, tok{k: 's', s: b.String()})
				break
			}
			if b.Len() == 0 {
				return nil, syntax("empty identifier")
			}
			out = append(out, tok{k: 'q', s: b.String()})
		case c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(q) {
					return nil, syntax("unterminated string")
				}
				if q[j] == '\'' {
					if j+1 < len(q) && q[j+1] == '\'' {
						b.WriteByte('\'')
						j += 2
						continue
					}
					break
				}
				b.WriteByte(q[j])
				j++
			}
			i = j + 1
			out = append(out, tok{k: 's', s: b.String()})
		case c == '?':
			if dialect == Postgres {
				return nil, syntax("unexpected ?")
			}
			out = append(out, tok{k: '?', n: 0})
			i++
		case c == '$':
			j := i + 1
			for j < len(q) && isDigit(q[j]) {
				j++
			}
			if dialect != Postgres || j == i+1 {
				return nil, syntax("unexpected $")
			}
			n, _ := strconv.Atoi(q[i+1 : j])
			if n == 0 {
				return nil, syntax("there is no parameter $0")
			}
			out = append(out, tok{k: '?', n: n})
			i = j
		case c == '<' || c == '>' || c == '!':
			s := string(c)
			if i+1 < len(q) && (q[i+1] == '=' || c == '<' && q[i+1] == '>') {
				s = q[i : i+2]
			}
			if s == "!" {
				return nil, syntax("unexpected !")
			}
			i += len(s)
			out = append(out, tok{k: 'p', s: s})
		case c == '(' || c == ')' || c == ',' || c == ';' || c == '=' || c == '*' || c == '.' || c == '-':
			out = append(out, tok{k: 'p', s: string(c)})
			i++
		default:
			return nil, syntax("unexpected " + string(c))
		}
	}
	return append(out, tok{k: 'e'}), nil
}

type node struct {
	op   string
	name string
	arg  int
	lit  any
	kids []*node
	not  bool
}

type setItem struct {
	col string
	val *node
}

type ordItem struct {
	cols []string
	desc bool
}

type stmt struct {
	kind      string
	table     string
	cols      []string
	rows      [][]*node
	ignore    bool
	conflict  bool
	onDup     bool
	target    []string
	doNothing bool
	sets      []setItem
	star      bool
	out       []*node
	where     *node
	group     []string
	order     []ordItem
	limit     int64
	offset    int64
	lock      string
	nargs     int
}

type parser struct {
	dialect int
	t       []tok
	i       int
	args    int
	used    []bool
}

type fail struct{ err error }

func (p *parser) fail(what string) { panic(fail{syntax(what)}) }

func (p *parser) cur() tok { return p.t[p.i] }

func up(s string) string { return strings.ToUpper(s) }

// word reports whether the next tokens are the given keywords, and consumes them.
func (p *parser) word(ws ...string) bool {
	for k, w := range ws {
		t := p.t[p.i+k]
		if t.k != 'i' || up(t.s) != w {
			return false
		}
	}
	p.i += len(ws)
	return true
}

func (p *parser) punct(s string) bool {
	if t := p.cur(); t.k == 'p' && t.s == s {
		p.i++
		return true
	}
	return false
}

func (p *parser) need(s string) {
	if !p.punct(s) {
		p.fail("expected " + s + " near " + p.near())
	}
}

func (p *parser) near() string {
	t := p.cur()
	if t.k == 'e' {
		return "end"
	}
	if t.k == '?' {
		return "placeholder"
	}
	return t.s
}

var reserved = map[string]bool{"SELECT": true, "FROM": true, "WHERE": true, "SET": true, "VALUES": true, "AND": true, "OR": true, "ORDER": true, "GROUP": true,
	"LIMIT": true, "INSERT": true, "UPDATE": true, "DELETE": true, "INTO": true, "BY": true, "ON": true, "NOT": true, "NULL": true, "IN": true, "BETWEEN": true,
	"LIKE": true, "IS": true, "ASC": true, "DESC": true}

func (p *parser) ident() string {
	t := p.cur()
	if t.k == 'q' {
		p.i++
		return t.s
	}
	if t.k != 'i' || reserved[up(t.s)] {
		p.fail("expected a name near " + p.near())
	}
	p.i++
	if p.dialect == Postgres {
		return strings.ToLower(t.s)
	}
	return t.s
}

func (p *parser) tableName() string {
	n := p.ident()
	for p.punct(".") {
		n += "." + p.ident()
	}
	return n
}

func (p *parser) names() []string {
	p.need("(")
	out := []string{p.ident()}
	for p.punct(",") {
		out = append(out, p.ident())
	}
	p.need(")")
	return out
}

func (p *parser) operand() *node {
	t := p.cur()
	switch {
	case p.punct("("):
		kids := []*node{p.expr()}
		for p.punct(",") {
			kids = append(kids, p.expr())
		}
		p.need(")")
		if len(kids) == 1 {
			return kids[0]
		}
		return &node{op: "tuple", kids: kids}
	case t.k == '?':
		p.i++
		n := t.n
		if n == 0 {
			p.args++
			n = p.args
		} else if n > p.args {
			p.args = n
		}
		for len(p.used) < n {
			p.used = append(p.used, false)
		}
		p.used[n-1] = true
		return &node{op: "arg", arg: n - 1}
	case t.k == 'n':
		p.i++
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail("number " + t.s)
		}
		return &node{op: "lit", lit: n}
	case t.k == 's':
		p.i++
		return &node{op: "lit", lit: t.s}
	case t.k == 'i' && up(t.s) == "NULL":
		p.i++
		return &node{op: "lit"}
	case t.k == 'i' && (up(t.s) == "TRUE" || up(t.s) == "FALSE"):
		p.i++
		return &node{op: "lit", lit: up(t.s) == "TRUE"}
	case t.k == 'i' && up(t.s) == "VALUES" && p.dialect == MySQL && p.t[p.i+1].s == "(":
		p.i++
		n := p.names()
		if len(n) != 1 {
			p.fail("VALUES")
		}
		return &node{op: "new", name: n[0]}
	case t.k == 'i' && up(t.s) == "EXCLUDED" && p.dialect != MySQL && p.t[p.i+1].s == ".":
		p.i += 2
		return &node{op: "new", name: p.ident()}
	}
	name := p.ident()
	if t.k == 'i' && p.punct("(") {
		n := &node{op: "fn", name: up(name)}
		if !p.punct(")") {
			n.kids = append(n.kids, p.expr())
			for p.punct(",") {
				n.kids = append(n.kids, p.expr())
			}
			p.need(")")
		}
		return n
	}
	return &node{op: "col", name: name}
}

func (p *parser) pred() *node {
	l := p.operand()
	for _, o := range []string{"=", "<>", "!=", "<=", ">=", "<", ">"} {
		if p.punct(o) {
			if o == "!=" {
				o = "<>"
			}
			return &node{op: o, kids: []*node{l, p.operand()}}
		}
	}
	if p.word("IS", "NOT", "NULL") {
		return &node{op: "isnull", kids: []*node{l}, not: true}
	}
	if p.word("IS", "NULL") {
		return &node{op: "isnull", kids: []*node{l}}
	}
	not := p.word("NOT")
	switch {
	case p.word("IN"):
		n := &node{op: "in", kids: []*node{l}, not: not}
		p.need("(")
		n.kids = append(n.kids, p.expr())
		for p.punct(",") {
			n.kids = append(n.kids, p.expr())
		}
		p.need(")")
		return n
	case p.word("LIKE"):
		return &node{op: "like", kids: []*node{l, p.operand()}, not: not}
	case p.word("BETWEEN"):
		lo := p.operand()
		if !p.word("AND") {
			p.fail("BETWEEN without AND")
		}
		return &node{op: "between", kids: []*node{l, lo, p.operand()}, not: not}
	}
	if not {
		p.fail("NOT near " + p.near())
	}
	return l
}

func (p *parser) notExpr() *node {
	if p.word("NOT") {
		return &node{op: "not", kids: []*node{p.notExpr()}}
	}
	return p.pred()
}

func (p *parser) andExpr() *node {
	l := p.notExpr()
	for p.word("AND") {
		l = &node{op: "and", kids: []*node{l, p.notExpr()}}
	}
	return l
}

func (p *parser) expr() *node {
	l := p.andExpr()
	for p.word("OR") {
		l = &node{op: "or", kids: []*node{l, p.andExpr()}}
	}
	return l
}

func (p *parser) setList() []setItem {
	var out []setItem
	for {
		c := p.ident()
		p.need("=")
		out = append(out, setItem{c, p.operand()})
		if !p.punct(",") {
			return out
		}
	}
}

func (p *parser) outList(s *stmt) {
	if p.punct("*") {
		s.star = true
		return
	}
	for {
		s.out = append(s.out, p.operand())
		if !p.punct(",") {
			return
		}
	}
}

func (p *parser) whereOrder(s *stmt, limits bool) {
	if p.word("WHERE") {
		s.where = p.expr()
	}
	if s.kind == "SELECT" && p.word("GROUP", "BY") {
		for {
			s.group = append(s.group, p.ident())
			if !p.punct(",") {
				break
			}
		}
	}
	if !limits {
		return
	}
	if p.word("ORDER", "BY") {
		for {
			var o ordItem
			if p.cur().k == 'p' && p.cur().s == "(" {
				o.cols = p.names()
				if len(o.cols) > 1 && p.dialect != Postgres {
					p.fail("row value used as a sort key")
				}
			} else {
				o.cols = []string{p.ident()}
			}
			if p.word("DESC") {
				o.desc = true
			} else {
				p.word("ASC")
			}
			s.order = append(s.order, o)
			if !p.punct(",") {
				break
			}
		}
	}
	limited := p.word("LIMIT")
	if limited {
		s.limit = p.num()
	}
	if s.kind == "SELECT" && p.word("OFFSET") {
		if !limited && p.dialect != Postgres {
			p.fail("OFFSET without LIMIT")
		}
		s.offset = p.num()
	}
}

func (p *parser) num() int64 {
	if p.dialect == SQLite && p.punct("-") {
		return -p.num()
	}
	t := p.cur()
	if p.dialect == MySQL && t.k == 'n' && t.s == "18446744073709551615" {
		p.i++
		return -1
	}
	n, err := strconv.ParseInt(t.s, 10, 64)
	if t.k != 'n' || err != nil {
		p.fail("expected a number near " + p.near())
	}
	p.i++
	return n
}

func parse(dialect int, q string) (s *stmt, err error) {
	t, err := lex(dialect, q)
	if err != nil {
		return nil, err
	}
	p := &parser{dialect: dialect, t: t}
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(fail)
			if !ok {
				panic(r)
			}
			s, err = nil, f.err
		}
	}()
	s = &stmt{limit: -1}
	switch {
	case p.word("INSERT"):
		s.kind = "INSERT"
		if dialect == MySQL && p.word("IGNORE") || dialect == SQLite && p.word("OR", "IGNORE") {
			s.ignore = true
		}
		if !p.word("INTO") {
			p.fail("INSERT without INTO near " + p.near())
		}
		s.table = p.tableName()
		s.cols = p.names()
		if !p.word("VALUES") {
			p.fail("INSERT without VALUES near " + p.near())
		}
		for {
			p.need("(")
			row := []*node{p.operand()}
			for p.punct(",") {
				row = append(row, p.operand())
			}
			p.need(")")
			if len(row) != len(s.cols) {
				p.fail("column count does not match value count")
			}
			s.rows = append(s.rows, row)
			if !p.punct(",") {
				break
			}
		}
		if dialect == MySQL && p.word("ON", "DUPLICATE", "KEY", "UPDATE") {
			s.onDup = true
			s.sets = p.setList()
		} else if dialect != MySQL && p.word("ON", "CONFLICT") {
			s.conflict = true
			if p.cur().s == "(" {
				s.target = p.names()
			}
			if p.word("DO", "NOTHING") {
				s.doNothing = true
			} else if p.word("DO", "UPDATE", "SET") {
				if s.target == nil && dialect == Postgres {
					p.fail("ON CONFLICT DO UPDATE requires a target")
				}
				s.sets = p.setList()
			} else {
				p.fail("ON CONFLICT near " + p.near())
			}
		}
		if dialect != MySQL && p.word("RETURNING") {
			p.outList(s)
		}
	case p.word("SELECT"):
		s.kind = "SELECT"
		p.outList(s)
		if !p.word("FROM") {
			p.fail("SELECT without FROM near " + p.near())
		}
		s.table = p.tableName()
		p.whereOrder(s, true)
		if p.word("FOR") {
			if dialect == SQLite {
				p.fail("FOR")
			}
			for p.cur().k == 'i' {
				s.lock += up(p.cur().s) + " "
				p.i++
			}
			switch s.lock {
			case "UPDATE ", "SHARE ":
			case "NO KEY UPDATE ", "KEY SHARE ":
				if dialect != Postgres {
					p.fail("lock " + s.lock)
				}
			default:
				p.fail("lock " + s.lock)
			}
		}
	case p.word("UPDATE"):
		s.kind = "UPDATE"
		s.table = p.tableName()
		if !p.word("SET") {
			p.fail("UPDATE without SET near " + p.near())
		}
		s.sets = p.setList()
		p.whereOrder(s, dialect != Postgres)
	case p.word("DELETE"):
		s.kind = "DELETE"
		if !p.word("FROM") {
			p.fail("DELETE without FROM")
		}
		s.table = p.tableName()
		p.whereOrder(s, dialect != Postgres)
	default:
		p.fail("unknown statement " + p.near())
	}
	p.punct(";")
	if p.cur().k != 'e' {
		p.fail("unexpected " + p.near())
	}
	for _, u := range p.used {
		if !u {
			p.fail("could not determine the type of an unused parameter")
		}
	}
	s.nargs = p.args
	return s, nil
}
