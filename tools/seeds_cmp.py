CP_ = "cmd/sqlgen/internal/compiler"
CHEAD = '''
package compiler

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

type every struct{}

func (every) Match(string) bool { return true }

func load(t *testing.T, files map[string]string) (*Package, error) {
	dir := t.TempDir()
	files["go.mod"] = "module m\\n\\ngo 1.23\\n"
	for n, s := range files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	t.Setenv("GOWORK", "off")
	t.Setenv("GOFLAGS", "-mod=mod")
	return Parse(dir, &Config{Tag: "sql", RenameFunc: strings.ToLower, Matcher: every{}})
}

func names(cs []*Column) string {
	var s []string
	for _, c := range cs {
		s = append(s, c.Name)
	}
	return strings.Join(s, " ")
}
'''
seed("k01-first-file-only", "K01", "an embedded struct declared in a later file of the package than the first",
     "the fields of the embedded struct are silently left out of the table",
     [(CP_ + "/parser.go", '''								obj = f.pkg.Syntax[i].Scope.Lookup(vi.Name)
								// exit when found the struct
								if obj != nil {
									break
								}''', '''								obj = f.pkg.Syntax[i].Scope.Lookup(vi.Name)
								// exit when found the struct
								if obj != nil || i > 0 {
									break
								}''')], "internal/compiler", CHEAD + '''
func TestDemo(t *testing.T) {
	p, err := load(t, map[string]string{
		"a.go": "package m\\n\\ntype M struct {\\n\\tID int64\\n\\tBase\\n}\\n",
		"b.go": "package m\\n\\ntype other int\\n",
		"c.go": "package m\\n\\ntype Base struct{ X int64 }\\n",
	})
	if err != nil {
		t.Fatal(err)
	}
	for _, tb := range p.Tables {
		if tb.GoName == "M" && names(tb.Columns) != "id x" {
			t.Fatal(names(tb.Columns))
		}
	}
}
''', "cmd/sqlgen")
seed("k01-name-unanchored", "K01", "a column name in a tag that begins like a name and goes on with other characters",
     "names such as total-price or a;b are accepted and written into every statement",
     [(CP_ + "/compiler.go", "regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\\_]*$`)", "regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\\_]*`)")],
     "internal/compiler", CHEAD + '''
func TestDemo(t *testing.T) {
	_, err := load(t, map[string]string{"a.go": "package m\\n\\ntype M struct {\\n\\tID int64 `sql:\\"a-b\\"`\\n}\\n"})
	if err == nil {
		t.Fatal("a column name with a dash was accepted")
	}
}
''', "cmd/sqlgen")
seed("k01-dup-by-field", "K01", "two fields of different Go names that are given the same column name",
     "the table gets two columns of one name instead of being refused",
     [(CP_ + "/parser.go", "			nameMap[name] = struct{}{}", "			nameMap[rename(f.name, name)] = struct{}{}"),
      (CP_ + "/parser.go", "// This is to count the underlying pointer of a type", '''// rename keeps the Go name where the tag only changes its case
func rename(goName, name string) string {
	if strings.EqualFold(goName, name) {
		return name
	}
	return goName
}

// This is to count the underlying pointer of a type''')], "internal/compiler", CHEAD + '''
func TestDemo(t *testing.T) {
	_, err := load(t, map[string]string{"a.go": "package m\\n\\ntype M struct {\\n\\tID int64 `sql:\\"code\\"`\\n\\tNo int64 `sql:\\"code\\"`\\n}\\n"})
	if err == nil {
		t.Fatal("two columns of one name were accepted")
	}
}
''', "cmd/sqlgen")
seed("k02-digit-then-lower", "K02", "a field name with a digit followed by a small letter",
     "no underscore after the number, so the column is called sha256sum instead of sha_256_sum",
     [("cmd/sqlgen/internal/strfmt/strfmt.go", "(vIsNum && (nextIsCap || nextIsLow))", "(vIsNum && nextIsCap)")],
     "internal/strfmt", '''
package strfmt

import "testing"

func TestDemo(t *testing.T) {
	if got := ToSnakeCase("Sha256sum"); got != "sha_256_sum" {
		t.Fatal(got)
	}
}
''', "cmd/sqlgen")
seed("k02-camel-after-digit", "K02", "camel case of a name with a capital behind a digit and another capital",
     "the capital that begins the word behind a number is made small",
     [("cmd/sqlgen/internal/strfmt/strfmt.go", "			n.WriteByte(v)\n			capNext = true\n", "			n.WriteByte(v)\n			capNext = !prevIsCap && i > 2\n			prevIsCap = true\n")],
     "internal/strfmt", '''
package strfmt

import "testing"

func TestDemo(t *testing.T) {
	if got := ToCamelCase("A1Bc"); got != "a1Bc" {
		t.Fatal(got)
	}
}
''', "cmd/sqlgen")
