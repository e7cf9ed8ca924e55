package main

import (
	"errors"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"golang.org/x/tools/go/packages"
)

// A source is a package of struct types. Natively it is written to files and
// loaded, for the solver its syntax and types are built here.
type source struct {
	decls []*decl
	group bool // all types of a file in one parenthesised declaration
}

type decl struct {
	name   string
	doc    string // comment above it
	fields []*field
	file   int   // 0, 1, 3 or 2 (generated code)
	other  bool  // in the imported package
	alias  bool  // type name = struct
	of     *decl // type name of.name, from the imported package
	basic  bool  // a string type instead of a struct
}

type field struct {
	names []string
	emb   *decl // embedded type when there is no name
	ptr   int
	typ   int
	tag   string // content of the sql tag
	bare  bool   // no tag
	other string // a tag of another key in front
}

const (
	tInt = iota
	tStr
	tBytes
	tTable // sequel.TableName
)

var typeNames = []string{"int64", "string", "[]byte", "sequel.TableName"}

func (f *field) typeText(from *decl) string {
	s := strings.Repeat("*", f.ptr)
	if f.names == nil {
		if f.emb.other && !from.other {
			return s + "other." + f.emb.name
		}
		return s + f.emb.name
	}
	return s + typeNames[f.typ]
}

func (f *field) tagText() string {
	s := ""
	if f.other != "" {
		s = f.other + " "
	}
	if !f.bare {
		s += "sql:\"" + f.tag + "\""
	}
	return s
}

var current *source

// rename is the naming rule of these checks.
func rename(s string) string { return "c" + s }

type all struct{}

func (all) Match(string) bool { return true }

// parse runs the compiler on the source.
func parse(s *source) (*compiler.Package, error) {
	current = s
	dir := ""
	if !sym.Symbolic() {
		d, err := s.write()
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		dir = d
		os.Setenv("GOWORK", "off")
		os.Setenv("GOFLAGS", "-mod=mod")
		os.Setenv("GOPROXY", "off")
	}
	return compiler.Parse(dir, &compiler.Config{Tag: "sql", RenameFunc: rename, Matcher: all{}})
}

func (s *source) write() (string, error) {
	dir, err := os.MkdirTemp("", "comp")
	if err != nil {
		return "", err
	}
	put := func(name, text string) {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if e := os.WriteFile(p, []byte(text), 0o644); e != nil {
			err = e
		}
	}
	put("go.mod", "module m\n\ngo 1.23\n\nrequire github.com/si3nloong/sqlgen v0.0.0\n\nreplace github.com/si3nloong/sqlgen => ./sqlgen\n")
	put("sqlgen/go.mod", "module github.com/si3nloong/sqlgen\n\ngo 1.23\n")
	put("sqlgen/sequel/sequel.go", "package sequel\n\ntype TableName struct{}\n")
	for file := -1; file < 4; file++ {
		body, n := "", 0
		for _, d := range s.decls {
			if d.other != (file < 0) || !d.other && d.file != file {
				continue
			}
			text := ""
			if d.doc != "" && (n == 0 || !s.group) {
				for _, l := range strings.Split(d.doc, "\n") {
					text += "// " + l + "\n"
				}
			}
			if !s.group {
				text += "type "
			} else if n == 0 {
				text += "type (\n"
			}
			n++
			text += d.name + " "
			if d.alias {
				text += "= "
			}
			if d.of != nil {
				body += text + "other." + d.of.name + "\n"
				continue
			}
			if d.basic {
				body += text + "string\n"
				continue
			}
			text += "struct {\n"
			for _, f := range d.fields {
				text += "\t" + strings.Join(f.names, ", ") + " " + f.typeText(d)
				if t := f.tagText(); t != "" {
					text += " `" + t + "`"
				}
				text += "\n"
			}
			body += text + "}\n"
		}
		if n == 0 {
			continue
		}
		if s.group {
			body += ")\n"
		}
		imports := ""
		if strings.Contains(body, "sequel.") {
			imports += "import \"github.com/si3nloong/sqlgen/sequel\"\n"
		}
		if strings.Contains(body, "other.") {
			imports += "import \"m/other\"\n"
		}
		if file < 0 {
			put("other/other.go", "package other\n\n"+imports+body)
		} else {
			head := ""
			if file == 2 {
				head = "// Code generated by sqlgen; DO NOT EDIT.\n\n"
			}
			put("f"+strconv.Itoa(file)+".go", head+"package m\n\n"+imports+body)
		}
	}
	return dir, err
}

// Load stands in for packages.Load.
func Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if current == nil {
		return nil, errors.New("no source")
	}
	s := current
	fset := token.NewFileSet()
	other := &packages.Package{PkgPath: "m/other", Name: "other", Fset: fset, Imports: map[string]*packages.Package{}}
	other.Types = types.NewPackage("m/other", "other")
	pkg := &packages.Package{PkgPath: "m", Name: "m", Fset: fset, Imports: map[string]*packages.Package{"m/other": other}}
	pkg.Types = types.NewPackage("m", "m")
	seq := types.NewPackage("github.com/si3nloong/sqlgen/sequel", "sequel")
	tableName := types.NewNamed(types.NewTypeName(0, seq, "TableName", nil), types.NewStruct(nil, nil), nil)

	info := func() *types.Info {
		return &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	}
	pkg.TypesInfo, other.TypesInfo = info(), info()
	named := map[*decl]*types.Named{}
	var own, foreign []*ast.File
	for _, d := range s.decls {
		p := pkg
		if d.other {
			p = other
		}
		var under types.Type = types.NewStruct(nil, nil)
		if d.basic {
			under = types.Typ[types.String]
		}
		named[d] = types.NewNamed(types.NewTypeName(0, p.Types, d.name, nil), under, nil)
	}
	for file := -1; file < 4; file++ {
		f := &ast.File{Name: ast.NewIdent("m"), Package: 1, Scope: ast.NewScope(nil)}
		if file == 2 {
			f.Comments = []*ast.CommentGroup{{List: []*ast.Comment{{Text: "// Code generated by sqlgen; DO NOT EDIT."}}}}
		}
		p := pkg
		if file < 0 {
			p = other
		}
		var in []*decl
		for _, d := range s.decls {
			if d.other == (file < 0) && (d.other || d.file == file) {
				in = append(in, d)
			}
		}
		if len(in) == 0 {
			continue
		}
		var gen *ast.GenDecl
		for i, d := range in {
			spec := &ast.TypeSpec{Name: ast.NewIdent(d.name)}
			if d.alias {
				spec.Assign = 1
			}
			obj := ast.NewObj(ast.Typ, d.name)
			obj.Decl = spec
			spec.Name.Obj = obj
			f.Scope.Insert(obj)
			p.TypesInfo.Defs[spec.Name] = named[d].Obj()
			if i == 0 || !s.group {
				gen = &ast.GenDecl{Tok: token.TYPE}
				if d.doc != "" {
					gen.Doc = &ast.CommentGroup{}
					for _, l := range strings.Split(d.doc, "\n") {
						gen.Doc.List = append(gen.Doc.List, &ast.Comment{Text: "// " + l})
					}
				}
				f.Decls = append(f.Decls, gen)
			}
			gen.Specs = append(gen.Specs, spec)
		}
		for _, d := range in {
			spec := f.Scope.Lookup(d.name).Decl.(*ast.TypeSpec)
			switch {
			case d.of != nil:
				sel := &ast.SelectorExpr{X: ast.NewIdent("other"), Sel: ast.NewIdent(d.of.name)}
				p.TypesInfo.Uses[sel.Sel] = named[d.of].Obj()
				spec.Type = sel
				continue
			case d.basic:
				spec.Type = ast.NewIdent("string")
				continue
			}
			list := []*ast.Field{}
			for _, fl := range d.fields {
				af := &ast.Field{}
				if t := fl.tagText(); t != "" {
					af.Tag = &ast.BasicLit{Kind: token.STRING, Value: "`" + t + "`"}
				}
				var t types.Type
				var x ast.Expr
				if fl.names == nil {
					e := fl.emb
					id := ast.NewIdent(e.name)
					t = named[e]
					if e.other && !d.other {
						p.TypesInfo.Uses[id] = named[e].Obj()
						x = &ast.SelectorExpr{X: ast.NewIdent("other"), Sel: id}
					} else {
						if e.file == d.file {
							id.Obj = f.Scope.Lookup(e.name)
						}
						p.TypesInfo.Uses[id] = named[e].Obj()
						x = id
					}
				} else {
					switch fl.typ {
					case tInt:
						t, x = types.Typ[types.Int64], ast.NewIdent("int64")
					case tStr:
						t, x = types.Typ[types.String], ast.NewIdent("string")
					case tBytes:
						t = types.NewSlice(types.Typ[types.Byte])
						x = &ast.ArrayType{Elt: ast.NewIdent("byte")}
					case tTable:
						t = tableName
						x = &ast.SelectorExpr{X: ast.NewIdent("sequel"), Sel: ast.NewIdent("TableName")}
					}
					for _, n := range fl.names {
						af.Names = append(af.Names, ast.NewIdent(n))
					}
				}
				p.TypesInfo.Types[x] = types.TypeAndValue{Type: t}
				for i := 0; i < fl.ptr; i++ {
					x, t = &ast.StarExpr{X: x}, types.NewPointer(t)
					p.TypesInfo.Types[x] = types.TypeAndValue{Type: t}
				}
				af.Type = x
				list = append(list, af)
			}
			spec.Type = &ast.StructType{Fields: &ast.FieldList{List: list}}
		}
		if file < 0 {
			foreign = append(foreign, f)
		} else {
			own = append(own, f)
		}
	}
	pkg.Syntax, other.Syntax = own, foreign
	return []*packages.Package{pkg}, nil
}
