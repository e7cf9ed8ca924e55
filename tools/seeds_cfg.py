CF_ = "cmd/sqlgen/codegen/config.go"
FHEAD_ = '''
package codegen

import (
	"os"
	"testing"
)

// from loads the file in a directory of its own and merges what the caller sets.
func from(t *testing.T, file string, c *Config) *Config {
	dir := t.TempDir()
	if file != "" {
		if err := os.WriteFile(dir+"/sqlgen.yml", []byte(file), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	old, _ := os.Getwd()
	defer os.Chdir(old)
	os.Chdir(dir)
	t.Setenv("PWD", dir)
	return DefaultConfig().Merge(c)
}
'''
seed("k03-file-types-win", "K03", "a type mapped both in the file and by the caller",
     "the mapping of the file is used, not the caller's",
     [(CF_, '''		maps.Copy(c.DataTypes, mapCfg.DataTypes)''', '''		types := maps.Clone(mapCfg.DataTypes)
		maps.Copy(types, c.DataTypes)
		c.DataTypes = types''')], "codegen", FHEAD_ + '''
func TestDemo(t *testing.T) {
	c := from(t, "data_types:\\n  a:\\n    scan: one\\n", &Config{DataTypes: map[string]*DataType{"a": {Scanner: "two"}}})
	if c.DataTypes["a"].Scanner != "two" {
		t.Fatal(c.DataTypes["a"].Scanner)
	}
}
''', "cmd/sqlgen")
seed("k03-strict-stays", "K03", "strictness turned off by the caller",
     "strictness stays on",
     [(CF_, '''		strict := *mapCfg.Strict''', '''		strict := *mapCfg.Strict || (c.Strict != nil && *c.Strict)''')], "codegen", FHEAD_ + '''
func TestDemo(t *testing.T) {
	no := false
	if c := from(t, "strict: true\\n", &Config{Strict: &no}); *c.Strict {
		t.Fatal("strict")
	}
}
''', "cmd/sqlgen")
seed("k03-operator-dir", "K03", "a database package that is called differently from its directory",
     "the operators go into a directory called like the package",
     [(CF_, '''		c.Database.Operator.Dir = c.Database.Dir
	}
	if c.Database.Operator.Filename''', '''		c.Database.Operator.Dir = c.Database.Operator.Package
	}
	if c.Database.Operator.Filename''')], "codegen", FHEAD_ + '''
func TestDemo(t *testing.T) {
	c := from(t, "", &Config{Database: &DatabaseConfig{Dir: "store", Package: "db"}})
	if c.Database.Operator.Dir != "store" {
		t.Fatal(c.Database.Operator.Dir)
	}
}
''', "cmd/sqlgen")
seed("k03-migration-package", "K03", "a migration with a directory of its own and no package",
     "the package is called like the directory instead of the default",
     [(CF_, '''			c.Migration.Package = "migrate"''', '''			c.Migration.Package = filepath.Base(c.Migration.Dir)''')], "codegen", FHEAD_ + '''
func TestDemo(t *testing.T) {
	c := from(t, "", &Config{Migration: &MigrationConfig{Dir: "sql-files"}})
	if c.Migration.Package != "migrate" {
		t.Fatal(c.Migration.Package)
	}
}
''', "cmd/sqlgen")
