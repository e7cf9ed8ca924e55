CG_ = "cmd/sqlgen/codegen/codegen.go"
SHEAD = '''
package codegen

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// code generates for the sources and tells which of the files there is code for.
func code(t *testing.T, cfg *Config, files ...string) map[string]bool {
	dir, err := filepath.EvalSymlinks(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	put := func(n, s string) {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	put("go.mod", "module m\\n\\ngo 1.23\\n")
	for i, f := range files {
		put(f, "package p\\n\\ntype T"+string(rune('A'+i))+" struct{ ID int64 }\\n")
	}
	t.Setenv("GOWORK", "off")
	t.Setenv("GOFLAGS", "-mod=mod")
	old, _ := os.Getwd()
	defer os.Chdir(old)
	os.Chdir(dir)
	t.Setenv("PWD", dir)
	cfg.SkipModTidy = true
	if err := Generate(cfg); err != nil {
		t.Fatal(err)
	}
	got := map[string]bool{}
	for i, f := range files {
		b, _ := os.ReadFile(filepath.Join(dir, filepath.Dir(f), "generated.go"))
		got[f] = strings.Contains(string(b), "T"+string(rune('A'+i))+")")
	}
	return got
}
'''
seed("k04-below-db", "K04", "a source directory below the directory the database code goes to",
     "the directory is passed over as if it were the database code itself",
     [(CG_, '''		if idx := lo.IndexOf([]string{
			path.Join(pwd, g.config.Database.Dir),
			path.Join(pwd, g.config.Database.Operator.Dir),
		}, dir); idx >= 0 {''', '''		if _, own := lo.Find([]string{
			path.Join(pwd, g.config.Database.Dir),
			path.Join(pwd, g.config.Database.Operator.Dir),
		}, func(d string) bool { return strings.HasPrefix(dir, d) }); own {''')], "codegen", SHEAD + '''
func TestDemo(t *testing.T) {
	if got := code(t, &Config{Source: []string{"**/*.go"}}, "db/model/a.go", "dbx/a.go"); !got["db/model/a.go"] || !got["dbx/a.go"] {
		t.Fatal(got)
	}
}
''', "cmd/sqlgen")
seed("k04-own-suffix", "K04", "a directory whose only Go files have names that end like the generated file",
     "the directory is taken for one with generated code only and passed over",
     [("cmd/sqlgen/internal/fileutil/fileutil.go", '''			lo.Contains(excluded, filepath.Base(path)) ||''', '''			lo.ContainsBy(excluded, func(f string) bool { return f != "" && len(path) >= len(f) && path[len(path)-len(f):] == f }) ||''')], "codegen", SHEAD + '''
func TestDemo(t *testing.T) {
	if got := code(t, &Config{Source: []string{"./models"}}, "models/user_generated.go"); !got["models/user_generated.go"] {
		t.Fatal(got)
	}
}
''', "cmd/sqlgen")
