package main

import (
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// lower is text of small letters after a prefix no keyword and no word of the language of the file starts with.
func lower(n, prefix string) string {
	s := sym.String(n, 1, sym.B(1, 2))
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return prefix + s
}

// Open, CloseFile, Decoder and Decode stand in for reading the configuration file.
func Open(string) (*os.File, error)                         { return nil, nil }
func CloseFile(*os.File) error                              { return nil }
func Decoder(io.Reader, ...yaml.DecodeOption) *yaml.Decoder { return nil }

func Decode(_ *yaml.Decoder, v any) error {
	c, f := v.(*codegen.Config), w.config
	if text(f) == "" {
		if !w.comments {
			return io.EOF
		}
		*c = codegen.Config{} // what the decoder makes of a file of comments
		return nil
	}
	set := func(to *string, from string) {
		if from != "" {
			*to = from
		}
	}
	if f.Source != nil {
		c.Source = append([]string{}, f.Source...)
	}
	if f.Driver != "" {
		c.Driver = f.Driver
	}
	if f.NamingConvention != "" {
		c.NamingConvention = f.NamingConvention
	}
	set(&c.Tag, f.Tag)
	set(&c.Getter.Prefix, f.Getter.Prefix)
	set(&c.Exec.Filename, f.Exec.Filename)
	if f.Strict != nil {
		b := *f.Strict
		c.Strict = &b
	}
	c.Exec.SkipEmpty = c.Exec.SkipEmpty || f.Exec.SkipEmpty
	c.SkipHeader = c.SkipHeader || f.SkipHeader
	if d := f.Database; d != nil {
		if c.Database == nil {
			c.Database = new(codegen.DatabaseConfig)
		}
		set(&c.Database.Package, d.Package)
		set(&c.Database.Dir, d.Dir)
		set(&c.Database.Filename, d.Filename)
		if o := d.Operator; o != nil {
			if c.Database.Operator == nil {
				c.Database.Operator = new(codegen.DatabaseOperatorConfig)
			}
			set(&c.Database.Operator.Package, o.Package)
			set(&c.Database.Operator.Dir, o.Dir)
			set(&c.Database.Operator.Filename, o.Filename)
		}
	}
	for k, t := range f.DataTypes {
		if c.DataTypes == nil {
			c.DataTypes = make(map[string]*codegen.DataType)
		}
		x := *t
		c.DataTypes[k] = &x
	}
	return nil
}

// text is the configuration file which sets what is set in c, "" if that is nothing.
func text(c *codegen.Config) string {
	var b strings.Builder
	line := func(indent, name, v string) {
		if v != "" {
			b.WriteString(indent + name + ": \"" + v + "\"\n")
		}
	}
	if c.Source != nil {
		b.WriteString("src:\n")
		for _, s := range c.Source {
			b.WriteString("  - \"" + s + "\"\n")
		}
	}
	line("", "driver", string(c.Driver))
	line("", "naming_convention", string(c.NamingConvention))
	line("", "struct_tag", c.Tag)
	if c.Getter.Prefix != "" {
		b.WriteString("getter:\n")
		line("  ", "prefix", c.Getter.Prefix)
	}
	if c.Exec.Filename != "" || c.Exec.SkipEmpty {
		b.WriteString("exec:\n")
		line("  ", "filename", c.Exec.Filename)
		if c.Exec.SkipEmpty {
			b.WriteString("  skip_empty: true\n")
		}
	}
	if c.Strict != nil {
		b.WriteString("strict: " + map[bool]string{true: "true", false: "false"}[*c.Strict] + "\n")
	}
	if c.SkipHeader {
		b.WriteString("skip_header: true\n")
	}
	if d := c.Database; d != nil {
		b.WriteString("database:\n")
		line("  ", "package", d.Package)
		line("  ", "dir", d.Dir)
		line("  ", "filename", d.Filename)
		if o := d.Operator; o != nil {
			b.WriteString("  operator:\n")
			line("    ", "package", o.Package)
			line("    ", "dir", o.Dir)
			line("    ", "filename", o.Filename)
		}
	}
	if c.DataTypes != nil {
		b.WriteString("data_types:\n")
		for k, t := range c.DataTypes {
			b.WriteString("  " + k + ":\n")
			line("    ", "data_type", t.DataType)
			line("    ", "scan", t.Scanner)
			line("    ", "value", t.Valuer)
		}
	}
	return b.String()
}

// inTree runs f in a directory with the configuration file.
func inTree(file *codegen.Config, f func()) {
	comments := file != nil && text(file) == "" && sym.Choose("comments", 2) == 1
	w = &world{top: "/tmp/gsrc1234567", wd: "", files: nil, code: map[string][]int{}, name: "generated.go", config: file, comments: comments}
	names := []string{"sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml"}
	w.cfgName = names[0]
	if file != nil {
		w.cfgName = names[sym.Choose("name", len(names))]
	}
	if sym.Symbolic() {
		f()
		return
	}
	dir, err := os.MkdirTemp("", "gsrc")
	if err == nil {
		dir, err = filepath.EvalSymlinks(dir)
	}
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if file != nil {
		t := text(file)
		if comments {
			t = "# options\n"
		}
		if err := os.WriteFile(dir+"/"+w.cfgName, []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	os.Setenv("PWD", dir)
	f()
}

// where an option is set: not at all, in the file, by the caller, by both.
const (
	inFile   = 1
	byCaller = 2
)

// option sets an option where at says and tells what it means then.
func option(at int, file, caller *string, inf, byc, def string) string {
	want := def
	if at&inFile != 0 {
		*file = inf
		want = inf
	}
	if at&byCaller != 0 {
		*caller = byc
		want = byc
	}
	return want
}

// K03_Options: every option is as the caller says, else as the file says, else the default.
func K03_Options() {
	var f, c codegen.Config
	one, at, rest := sym.Choose("option", 7), sym.Choose("set", 4), sym.Choose("others", 4)
	k := 0
	next := func() int {
		k++
		if k-1 == one {
			return at
		}
		return rest
	}
	var fd, cd, fn, cn string
	tag := option(next(), &f.Tag, &c.Tag, lower("ft", "t"), lower("ct", "t"), "sql")
	prefix := option(next(), &f.Getter.Prefix, &c.Getter.Prefix, lower("fp", "P"), lower("cp", "P"), "Column")
	name := option(next(), &f.Exec.Filename, &c.Exec.Filename, lower("fe", "e")+".go", lower("ce", "e")+".go", "generated.go")
	driver := option(next(), &fd, &cd, "postgres", "sqlite", "mysql")
	naming := option(next(), &fn, &cn, "camelCase", "PascalCase", "snake_case")
	f.Driver, c.Driver, f.NamingConvention, c.NamingConvention = codegen.SqlDriver(fd), codegen.SqlDriver(cd), "", ""
	switch fn {
	case "camelCase":
		f.NamingConvention = codegen.CamelCase
	}
	switch cn {
	case "PascalCase":
		c.NamingConvention = codegen.PascalCase
	}
	strict, source := true, "./**/*"
	yes, no := true, false
	if a := next(); a != 0 {
		if a&inFile != 0 {
			f.Strict, strict = &no, false
		}
		if a&byCaller != 0 {
			if a&inFile != 0 {
				c.Strict, strict = &yes, true
			} else {
				c.Strict, strict = &no, false
			}
		}
	}
	if a := next(); a != 0 {
		if a&inFile != 0 {
			f.Source, source = []string{lower("fs", "s")}, ""
			source = f.Source[0]
		}
		if a&byCaller != 0 {
			c.Source = []string{lower("cs", "s")}
			source = c.Source[0]
		}
	}
	f.Exec.SkipEmpty, c.Exec.SkipEmpty = rest&inFile != 0, rest&byCaller != 0
	c.SkipHeader, f.SkipHeader = rest&inFile != 0, rest&byCaller != 0
	file := &f
	if sym.Choose("file", 2) == 0 {
		sym.Assume(text(&f) == "")
		file = nil
	}
	inTree(file, func() {
		m := codegen.DefaultConfig().Merge(&c)
		sym.Assert(sym.EqStr(m.Tag, tag), "tag")
		sym.Assert(sym.EqStr(m.Getter.Prefix, prefix), "prefix")
		sym.Assert(sym.EqStr(m.Exec.Filename, name), "file-name")
		sym.Assert(string(m.Driver) == driver, "driver")
		sym.Assert(string(m.NamingConvention) == naming, "naming")
		sym.Assert(m.RenameFunc()("UserName") == map[string]string{"snake_case": "user_name", "camelCase": "userName", "PascalCase": "UserName"}[naming], "naming-applied")
		sym.Assert(m.Strict != nil && *m.Strict == strict, "strict")
		sym.Assert(len(m.Source) == 1 && sym.EqStr(m.Source[0], source), "source")
		sym.Assert(m.Exec.SkipEmpty == (rest != 0), "skip-empty")
		sym.Assert(m.SkipHeader == (rest != 0), "skip-header")
		sym.Assert(m.Migration == nil, "no-migration")
		sym.Cover("merged")
	})
}

// K03_Types: types are mapped as the caller says, else as the file says.
func K03_Types() {
	var f, c codegen.Config
	put := func(at, n, key string, m *map[string]*codegen.DataType) *codegen.DataType {
		if sym.Choose(at+n, 2) == 0 {
			return nil
		}
		if *m == nil {
			*m = map[string]*codegen.DataType{}
		}
		t := &codegen.DataType{DataType: lower(at+n+"d", "t"), Scanner: lower(at+n+"s", "s"), Valuer: lower(at+n+"v", "v")}
		(*m)[key] = t
		return t
	}
	fa, fb := put("f", "a", "ta", &f.DataTypes), put("f", "b", "tb", &f.DataTypes)
	ca, cb := put("c", "a", "ta", &c.DataTypes), put("c", "b", "tb", &c.DataTypes)
	inTree(&f, func() {
		m := codegen.DefaultConfig().Merge(&c)
		is := func(got, file, caller *codegen.DataType) bool {
			want := caller
			if want == nil {
				want = file
			}
			if want == nil || got == nil {
				return want == nil && got == nil
			}
			return sym.And(sym.EqStr(got.DataType, want.DataType), sym.And(sym.EqStr(got.Scanner, want.Scanner), sym.EqStr(got.Valuer, want.Valuer)))
		}
		sym.Assert(is(m.DataTypes["ta"], fa, ca), "first-type")
		sym.Assert(is(m.DataTypes["tb"], fb, cb), "second-type")
		sym.Cover("merged")
	})
}

// K03_Migration: so are the options of the migration.
func K03_Migration() {
	var c codegen.Config
	c.Migration = &codegen.MigrationConfig{}
	var none string
	at := func(n string) int { return sym.Choose(n, 2) * byCaller }
	dsn := option(at("1"), &none, &c.Migration.DSN, "", lower("dsn", "d"), "")
	pkg := option(at("2"), &none, &c.Migration.Package, "", lower("pkg", "p"), "migrate")
	dir := option(at("3"), &none, &c.Migration.Dir, "", lower("dir", "d"), "migrate")
	name := option(at("4"), &none, &c.Migration.Filename, "", lower("name", "n"), "migrate.go")
	inTree(nil, func() {
		m := codegen.DefaultConfig().Merge(&c).Migration
		sym.Assert(m != nil, "kept")
		sym.Assert(sym.EqStr(m.DSN, dsn), "dsn")
		sym.Assert(sym.EqStr(m.Package, pkg), "package")
		sym.Assert(sym.EqStr(m.Dir, dir), "dir")
		sym.Assert(sym.EqStr(m.Filename, name), "file-name")
		sym.Cover("merged")
	})
}

func database(c *codegen.Config) {
	c.Database = &codegen.DatabaseConfig{Operator: &codegen.DatabaseOperatorConfig{}}
}

func drop(c *codegen.Config) {
	d := c.Database
	if o := d.Operator; o.Package == "" && o.Dir == "" && o.Filename == "" {
		d.Operator = nil
		if d.Package == "" && d.Dir == "" && d.Filename == "" {
			c.Database = nil
		}
	}
}

// K03_Database: the code goes where the options say; the operators go with the database code unless they are told otherwise.
func K03_Database() {
	states := sym.B(3, 4)
	var f, c codegen.Config
	database(&f)
	database(&c)
	fd, cd := f.Database, c.Database
	at := func(n string) int { return sym.Choose(n, states) }
	a := at("dir")
	dir := option(a, &fd.Dir, &cd.Dir, lower("fdir", "d"), lower("cdir", "d"), "db")
	pkg := option(at("pkg"), &fd.Package, &cd.Package, lower("fpkg", "p"), lower("cpkg", "p"), "db")
	name := option(at("name"), &fd.Filename, &cd.Filename, lower("fname", "n")+".go", lower("cname", "n")+".go", "db.go")
	opDir := option(at("opdir"), &fd.Operator.Dir, &cd.Operator.Dir, lower("fopdir", "d"), lower("copdir", "d"), dir)
	opPkg := option(at("oppkg"), &fd.Operator.Package, &cd.Operator.Package, lower("foppkg", "p"), lower("coppkg", "p"), pkg)
	opName := option(at("opname"), &fd.Operator.Filename, &cd.Operator.Filename, lower("fopname", "n")+".go", lower("copname", "n")+".go", "operator.go")
	drop(&f)
	drop(&c)
	sym.Assume(!sym.And(sym.EqStr(dir, opDir), sym.EqStr(name, opName)))
	inTree(&f, func() {
		c.Source, c.SkipModTidy = []string{"none"}, true
		bystander := ""
		if !sym.Symbolic() {
			// a file of the user's, where the operators would be next to the database code
			if p := join(dir, opName); dir != opDir && name != opName {
				bystander = p
				os.MkdirAll(dir, 0o755)
				if err := os.WriteFile(p, []byte("package "+pkg+"\n"), 0o644); err != nil {
					panic(err)
				}
			}
		}
		err := codegen.Generate(&c)
		sym.Assert(err == nil, "generates")
		has := func(what, mark, pkg, path string) bool {
			if sym.Symbolic() {
				is := false
				for _, f := range w.written {
					is = sym.Or(is, sym.And(f.what == what, sym.And(sym.EqStr(f.pkg, pkg), sym.EqStr(f.path, path))))
				}
				return is
			}
			b, err := os.ReadFile(path)
			return err == nil && strings.Contains(string(b), "package "+pkg+"\n") && strings.Contains(string(b), mark)
		}
		sym.Assert(has("db.go.tpl", "func InsertOne", pkg, join(dir, name)), "database-code")
		sym.Assert(has("operator.go.tpl", "func Equal", opPkg, join(opDir, opName)), "operators")
		kept := true
		if sym.Symbolic() {
			for _, p := range w.gone {
				kept = sym.And(kept, sym.Or(sym.EqStr(p, join(dir, name)), sym.EqStr(p, join(opDir, opName))))
			}
		} else if bystander != "" {
			b, err := os.ReadFile(bystander)
			kept = err == nil && string(b) == "package "+pkg+"\n"
		}
		sym.Assert(kept, "other-files-kept")
		sym.Cover("generated")
	})
}
