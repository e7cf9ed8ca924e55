package main

import (
	"errors"
	"strconv"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// column is what a field must become.
type column struct {
	name, goName, path string
	readonly, key      bool
	auto               bool
	ptrs               []string // embedded pointers on the way, and the field itself
}

// table is what a struct must become; nil columns with bad unset means left out.
type table struct {
	name string
	cols []column
	bad  bool
}

func upper(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

// split reads the content of a tag.
func split(tag string) (name string, opts []string) {
	parts := strings.Split(tag, ",")
	for i := range parts {
		parts[i] = strings.TrimSpace(parts[i])
	}
	return parts[0], parts[1:]
}

// option tells whether the options have one of the names, in any case.
func option(opts []string, names ...string) bool {
	for _, o := range opts {
		o, _, _ = strings.Cut(o, ":")
		for _, n := range names {
			if strings.EqualFold(o, n) {
				return true
			}
		}
	}
	return false
}

func identifier(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i] | 0x20
		letter := c >= 'a' && c <= 'z'
		if !letter && (i == 0 || s[i] != '_' && (s[i] < '0' || s[i] > '9')) {
			return false
		}
	}
	return s != ""
}

// walk adds the columns of the fields in the order they are declared in.
func (t *table) walk(d *decl, path string, ptrs []string) {
	for _, f := range d.fields {
		name, opts := "", []string(nil)
		if !f.bare {
			name, opts = split(f.tag)
		}
		if sym.FixBool(sym.EqStr(name, "-")) {
			continue
		}
		if f.names == nil {
			if f.emb.basic {
				continue
			}
			p := path + "." + f.emb.name
			q := ptrs
			if f.ptr > 0 {
				q = append(append([]string(nil), ptrs...), p)
			}
			t.walk(f.emb, p, q)
			continue
		}
		for _, n := range f.names {
			if f.typ == tTable {
				if name != "" {
					t.name = name
				}
				continue
			}
			if !upper(n) {
				continue
			}
			if f.ptr > 1 {
				t.bad = true
			}
			c := column{name: rename(n), goName: n, path: path + "." + n, ptrs: ptrs}
			if f.ptr > 0 {
				c.ptrs = append(append([]string(nil), ptrs...), c.path)
			}
			if name != "" {
				if !identifier(name) {
					t.bad = true
				}
				c.name = name
			}
			c.readonly = option(opts, "readonly")
			c.auto = option(opts, "auto_increment")
			c.key = option(opts, "pk", "primary_key") && !c.auto
			for _, o := range t.cols {
				if sym.FixBool(sym.EqStr(o.name, c.name)) || c.auto && o.auto {
					t.bad = true
				}
			}
			if c.readonly && (c.key || c.auto) {
				t.bad = true
			}
			t.cols = append(t.cols, c)
		}
	}
}

func expect(d *decl) table {
	t := table{name: rename(d.name)}
	src := d
	if d.of != nil {
		src = d.of
	}
	t.walk(src, "", nil)
	return t
}

func sameCol(c *compiler.Column, w column) bool {
	return sym.And(sym.EqStr(c.Name, w.name), c.GoName == w.goName && c.GoPath == w.path && c.Readonly == w.readonly)
}

func sameCols(got []*compiler.Column, want []column, keep func(column) bool) bool {
	r, i := true, 0
	for _, w := range want {
		if !keep(w) {
			continue
		}
		if i >= len(got) {
			return false
		}
		r = sym.And(r, sameCol(got[i], w))
		i++
	}
	return r && i == len(got)
}

// same asserts that the table is the expected one.
func same(t *compiler.Table, d *decl, w table) {
	sym.Assert(t.GoName == d.name, "its-struct")
	sym.Assert(sym.EqStr(t.Name, w.name), "table-name")
	sym.Assert(len(t.Columns) == len(w.cols), "as-many-columns-as-fields")
	auto, ok := t.AutoIncrKey()
	n, hasAuto, hasKey := 0, false, false
	for i, c := range t.Columns {
		sym.Assert(sameCol(c, w.cols[i]), "column-in-its-place")
		sym.Assert(c.Pos == i, "position-of-the-column")
		var ptrs []string
		for _, p := range c.GoPtrPaths() {
			ptrs = append(ptrs, p.GoPath)
		}
		sym.Assert(strings.Join(ptrs, " ") == strings.Join(w.cols[i].ptrs, " "), "pointers-on-the-way")
		if w.cols[i].auto {
			hasAuto = true
			sym.Assert(ok && auto == c, "automatic-key")
		}
		if w.cols[i].key {
			hasKey = true
			sym.Assert(n < len(t.Keys) && t.Keys[n] == c, "keys-in-order")
			n++
		}
	}
	sym.Assert(ok == hasAuto, "automatic-key")
	sym.Assert(len(t.Keys) == n, "only-the-keys")
	sym.Assert(t.HasPK() == (hasAuto || hasKey), "has-a-key")
	sym.Assert(sameCols(t.InsertColumns(), w.cols, func(c column) bool { return !c.readonly && !c.auto }), "columns-to-insert")
	sym.Assert(sameCols(t.ColumnsWithoutPK(), w.cols, func(c column) bool { return !c.readonly && !c.auto && !c.key }), "columns-to-update")
}

// one asserts what the compiler makes of the first type of the source.
func one(s *source) {
	d := s.decls[0]
	w := expect(d)
	pkg, err := parse(s)
	if w.bad {
		sym.Assert(err != nil, "refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "accepted")
	if len(w.cols) == 0 {
		for _, t := range pkg.Tables {
			sym.Assert(t.GoName != d.name, "no-table-without-columns")
		}
		sym.Cover("empty")
		return
	}
	var t *compiler.Table
	for _, x := range pkg.Tables {
		if x.GoName == d.name {
			t = x
		}
	}
	sym.Assert(t != nil, "has-a-table")
	same(t, d, w)
	sym.Cover("columns-" + strconv.Itoa(len(w.cols)))
}

// inTag is text that may stand in a tag.
func inTag(n string, lo, hi int) string {
	s := sym.String(n, lo, hi)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= ' ' && s[i] <= '~' && s[i] != '"' && s[i] != '\\' && s[i] != '`')
	}
	return s
}

func f(tag string, names ...string) *field    { return &field{names: names, tag: tag} }
func plain(names ...string) *field            { return &field{names: names, bare: true} }
func embed(d *decl, ptr int, t string) *field { return &field{emb: d, ptr: ptr, tag: t, bare: t == ""} }

// K01_Tag: any tag of a few characters.
func K01_Tag() {
	one(&source{decls: []*decl{{name: "M", fields: []*field{f(inTag("tag", 0, sym.B(5, 6)), "A"), plain("B")}}}})
}

// K01_Names: any two names.
func K01_Names() {
	x, y := inTag("x", 0, sym.B(2, 3)), inTag("y", 0, 2)
	one(&source{decls: []*decl{{name: "M", fields: []*field{f(x, "A"), f(y, "B"), f("aa,pk", "C")}}}})
}

// anyCase is the word in any mixture of cases.
func anyCase(n, word string) string {
	b := sym.Bytes(n, len(word), len(word))
	up := sym.Choose(n+".upper", 2) == 1 // of the letters that are not free
	for i := range b {
		c := word[i]
		if i%3 != 0 && len(word) > 2 {
			d := c
			if d >= 'a' && d <= 'z' {
				d -= 32
			}
			if !up {
				d = c
			}
			sym.Assume(b[i] == d)
		} else if c >= 'a' && c <= 'z' {
			sym.Assume(sym.Or(b[i] == c, b[i] == c-32))
		} else {
			sym.Assume(b[i] == c)
		}
	}
	return string(b)
}

var words = []string{"", "pk", "primary_key", "auto_increment", "readonly", "size:10", "pks"}

// K01_Case: options in any case, with spaces.
func K01_Case() {
	o := anyCase("word", words[1+sym.Choose("option", len(words)-1)])
	t := []string{"," + o, "name," + o + " ", " name , " + o, ",size:4," + o}[sym.Choose("form", 4)]
	one(&source{decls: []*decl{{name: "M", fields: []*field{plain("A"), f(t, "B")}}}})
}

// K01_Options: every mixture of options.
func K01_Options() {
	opts := []string{"", ",pk", ",auto_increment", ",readonly", ",pk,readonly", ",pk,auto_increment", ",auto_increment,readonly", ",size:3,primary_key"}
	var fs []*field
	for i := 0; i < 3; i++ {
		n := string(rune('A' + i))
		fs = append(fs, f(opts[sym.Choose(n, len(opts))], n))
	}
	one(&source{decls: []*decl{{name: "M", fields: fs}}})
}

// K01_Kinds: exported or not, pointers, left out.
func K01_Kinds() {
	pick := func(n string) *field {
		x := f([]string{"", "-", " - ", "-,pk", "x"}[sym.Choose(n+"tag", 5)], []string{n, strings.ToLower(n)}[sym.Choose(n+"case", 2)])
		x.ptr, x.typ = sym.Choose(n+"ptr", 3), sym.Choose(n+"typ", 3)
		return x
	}
	b := plain("B")
	b.other = []string{"", `json:"b,omitempty"`, `json:"-" sql2:"q"`}[sym.Choose("json", 3)]
	one(&source{decls: []*decl{{name: "M", fields: []*field{pick("A"), b}}}})
}

// K01_Embedded: embedded structs of every kind up to four deep.
func K01_Embedded() {
	deep := 1 + sym.Choose("depth", 4)
	var emb *decl
	var rest []*decl
	where := sym.Choose("where", 4) // same file, another file, other package, the last file
	tags := []string{"", "-", "name"}
	for i := deep; i > 0; i-- {
		n := strconv.Itoa(i)
		d := &decl{name: []string{"E", "e"}[sym.Choose("case", 2)] + n, fields: []*field{plain("X"+n, "Y"+n)}}
		if where == 2 {
			d.name = "E" + n
			d.other = true
		} else {
			d.file = where
		}
		if where == 3 {
			d.file = []int{3, 1, 0}[i%3]
		}
		if emb != nil {
			d.fields = append(d.fields, embed(emb, i%2, ""))
		}
		d.fields = append(d.fields, plain("Z"+n))
		rest = append(rest, d)
		emb = d
	}
	m := &decl{name: "M", fields: []*field{plain("A", "B"), embed(emb, sym.Choose("ptr", 2), tags[sym.Choose("tag", 3)]), f(",pk", "C")}}
	// the other files declare something of their own
	rest = append(rest, &decl{name: "N1", file: 1, fields: []*field{plain("A")}}, &decl{name: "N3", file: 3, fields: []*field{plain("A")}})
	one(&source{decls: append([]*decl{m}, rest...)})
}

// K01_Wide: many fields, several to a line, before and after embedded ones.
func K01_Wide() {
	var fs []*field
	n := 0
	name := func() string { n++; return "F" + strconv.Itoa(n) }
	e3 := &decl{name: "E3", fields: []*field{plain("P1", "P2", "P3"), plain("P4"), plain("P5"), plain("P6", "P7")}}
	e2 := &decl{name: "E2", fields: []*field{plain("Q1"), embed(e3, 0, ""), plain("Q2", "Q3"), plain("Q4")}}
	e1 := &decl{name: "E1", fields: []*field{embed(e2, 1, ""), plain("R1"), plain("R2", "R3")}}
	for i := 0; i < 5; i++ {
		switch sym.Choose("line"+strconv.Itoa(i), 3) {
		case 0:
			fs = append(fs, plain(name()))
		case 1:
			fs = append(fs, plain(name(), name(), name()))
		case 2:
			fs = append(fs, plain(name(), name()))
		}
		if i == 2 {
			fs = append(fs, embed(e1, 0, ""))
		}
	}
	one(&source{decls: []*decl{{name: "M", fields: fs}, e1, e2, e3}})
}

// K01_Table: the name of the table.
func K01_Table() {
	t := &field{names: []string{"_"}, typ: tTable, tag: []string{"", "the_name", " spaced ", "two,pk"}[sym.Choose("tag", 4)]}
	if sym.Choose("bare", 2) == 1 {
		t.tag, t.bare = "", true
	}
	fs := []*field{t, plain("A")}
	switch sym.Choose("place", 3) {
	case 1:
		fs = []*field{plain("A"), t}
	case 2:
		t.names[0] = "Table"
	}
	one(&source{decls: []*decl{{name: "M", fields: fs}}})
}

// K01_Doc: what the comment above a struct asks for.
func K01_Doc() {
	docs := []string{"", "M is a model.", "+sql:readonly", "+sql:ignore", "M is\n+sql:ignore", "+SQL:readonly", "sql:ignore", "+sql:readonly,ignore"}
	k := sym.Choose("doc", len(docs))
	e := &decl{name: "E", fields: []*field{plain("X")}, doc: []string{"", "+sql:ignore"}[sym.Choose("edoc", 2)]}
	m := &decl{name: "M", doc: docs[k], fields: []*field{plain("A")}}
	if sym.Choose("embeds", 2) == 1 {
		m.fields = append(m.fields, embed(e, 0, ""))
	}
	pkg, err := parse(&source{decls: []*decl{m, e}})
	sym.Assert(err == nil, "accepted")
	var t *compiler.Table
	for _, x := range pkg.Tables {
		if x.GoName == "M" {
			t = x
		}
	}
	ignored := k == 3 || k == 4 || k == 7
	sym.Assert((t == nil) == ignored, "ignored-when-asked")
	if t != nil {
		sym.Assert(t.Readonly == (k == 2 || k == 5), "read-only-when-asked")
		same(t, m, expect(m))
	}
}

// K01_Types: which types become tables.
func K01_Types() {
	o := &decl{name: "Base", other: true, fields: []*field{plain("X"), f("y,pk", "Y")}}
	var ds []*decl
	var want []string
	for i, n := range []string{"Q", "D", "K"} {
		d := &decl{name: n, fields: []*field{plain("A" + strconv.Itoa(i))}}
		in := true
		switch sym.Choose(n, 7) {
		case 1:
			d.name, in = strings.ToLower(n), false
		case 2:
			d.alias, in = true, false
		case 3:
			d.file, in = 2, false
		case 4:
			d.of, d.fields = o, nil
		case 5:
			d.basic, in = true, false
		case 6:
			d.fields, in = []*field{plain("a")}, false
		}
		if d.file == 0 {
			d.file = i % 2
		}
		ds = append(ds, d)
		if in {
			want = append(want, d.name)
		}
	}
	s := &source{decls: append(ds, o), group: sym.Choose("group", 2) == 1}
	pkg, err := parse(s)
	if len(want) == 0 {
		sym.Assert(errors.Is(err, compiler.ErrSkip) || err == nil && len(pkg.Tables) == 0, "nothing-to-do")
		sym.Cover("nothing")
		return
	}
	sym.Assert(err == nil, "accepted")
	sym.Assert(len(pkg.Tables) == len(want), "a-table-for-each-struct")
	last := ""
	for _, t := range pkg.Tables {
		sym.Assert(last < t.GoName, "tables-by-name")
		last = t.GoName
		for _, d := range ds {
			if d.name == t.GoName {
				same(t, d, expect(d))
			}
		}
	}
	sym.Cover("tables-" + strconv.Itoa(len(want)))
}
