GEN_ = "cmd/sqlgen/codegen/generate.go"
FUNCS_ = '''DataTypes: map[string]*codegen.DataType{"github.com/si3nloong/sqlgen/examples/zzgen/model.Amount": {SQLScanner: ptr("DEC({{.}})"), SQLValuer: ptr("ENC({{.}})")}},'''
MONEY_ = '''
package model

type Amount int64

type Account struct {
	Owner   string
	Balance Amount
	Credit  *Amount
	No      Amount `sql:",pk"`
}

type Entry struct {
	ID     int64 `sql:",pk,auto_increment"`
	Amount Amount
	Fee    Amount
}

type Share struct {
	A    Amount `sql:",pk"`
	B    Amount `sql:",pk"`
	Rate Amount
}
'''
TEXT_ = '''
package zzgen

import (
	"testing"

	_ "github.com/si3nloong/sqlgen/examples/zzgen/db"
	"github.com/si3nloong/sqlgen/examples/zzgen/model"
)

func same(t *testing.T, got, want string) {
	t.Helper()
	if got != want {
		t.Error(got, "is not", want)
	}
}

func first(q string, _ []any) string { return q }
'''

dbseed("t01-key-read-raw", "T01",
       "a key whose type has an SQL function to read it, found by the key",
       "FindByPK reads the key column without its function.",
       [(GEN_, '''	buf.WriteString("SELECT ")
	for i, f := range t.Columns {
		if i > 0 {
			buf.WriteByte(',')
		}
		scanner, err := g.sqlScanner(f)
''', '''	buf.WriteString("SELECT ")
	for i, f := range t.Columns {
		if i > 0 {
			buf.WriteByte(',')
		}
		if lo.Contains(t.Keys, f) {
			// Keys come back as they were given
			buf.WriteString(g.MustQuoteIdentifier(f.Name))
			continue
		}
		scanner, err := g.sqlScanner(f)
''')], MONEY_, TEXT_ + '''
func TestDemo(t *testing.T) {
	want := `SELECT "owner",DEC("balance"),DEC("credit"),DEC("no") FROM `
	same(t, first(model.Account{}.FindOneByPKStmt())[:len(want)], want)
}
''', config=FUNCS_)

dbseed("t01-html", "T01",
       "SQL functions configured for a database that quotes names with double quotes",
       "The SQL functions are rendered as HTML, so quotes in them become entities.",
       [(GEN_, '	"text/template"\n', '	"html/template"\n')], MONEY_, TEXT_ + '''
func TestDemo(t *testing.T) {
	same(t, model.Entry{}.SQLColumns()[1], `DEC("amount")`)
}
''', driver="postgres", quote="quote", config=FUNCS_)

dbseed("t01-returned-raw", "T01",
       "inserting one record on postgres with a column that has an SQL function to read it",
       "InsertOne asks for the stored columns without their functions.",
       [(GEN_, '''		buf.WriteString(" RETURNING ")
		for i, f := range t.Columns {
			if i > 0 {
				buf.WriteByte(',')
			}
			scanner, err := g.sqlScanner(f)
			if err != nil {
				return err
			}
			buf.WriteString(scanner)
		}
''', '''		buf.WriteString(" RETURNING ")
		for i, f := range t.Columns {
			if i > 0 {
				buf.WriteByte(',')
			}
			buf.WriteString(g.MustQuoteIdentifier(f.Name))
		}
''')], MONEY_, TEXT_ + '''
func TestDemo(t *testing.T) {
	q := first(model.Entry{}.InsertOneStmt())
	want := ` RETURNING "id",DEC("amount"),DEC("fee");`
	if len(q) < len(want) {
		t.Fatal(q)
	}
	same(t, q[len(q)-len(want):], want)
}
''', driver="postgres", config=FUNCS_)

dbseed("t01-cached-function", "T01",
       "two columns of one type with an SQL function in a statement for postgres",
       "The rendered function is kept per type, so the second column gets the first one's parameter.",
       [(GEN_, '''		t := template.Must(template.New("valuer").Parse(*typeMapper.SQLValuer))
		buf := strpool.AcquireString()
		defer strpool.ReleaseString(buf)
		if err := t.Execute(buf, g.dialect.QuoteVar(idx+1)); err != nil {
			return "", err
		}
		return buf.String(), nil
''', '''		if v, ok := valuerCache[*typeMapper.SQLValuer]; ok {
			return v, nil
		}
		t := template.Must(template.New("valuer").Parse(*typeMapper.SQLValuer))
		buf := strpool.AcquireString()
		defer strpool.ReleaseString(buf)
		if err := t.Execute(buf, g.dialect.QuoteVar(idx+1)); err != nil {
			return "", err
		}
		valuerCache[*typeMapper.SQLValuer] = buf.String()
		return buf.String(), nil
'''), (GEN_, '''func (g *Generator) sqlValuer(''', '''var valuerCache = make(map[string]string)

func (g *Generator) sqlValuer(''')], MONEY_, TEXT_ + '''
func TestDemo(t *testing.T) {
	q := first(model.Entry{}.UpdateOneByPKStmt())
	want := ` SET "amount" = ENC($1),"fee" = ENC($2) WHERE "id" = $3;`
	same(t, q[len(q)-len(want):], want)
}
''', driver="postgres", config=FUNCS_)

dbseed("t01-key-part-raw", "T01",
       "updating by two keys whose type has an SQL function",
       "The parts of the key are compared without the function of their type.",
       [(GEN_, '''		for i, k := range t.Keys {
			if i > 0 {
				buf.WriteByte(',')
			}
			valuer, err := g.sqlValuer(k, i+len(columns))
			if err != nil {
				return err
			}
			buf.WriteString(valuer)
''', '''		for i := range t.Keys {
			if i > 0 {
				buf.WriteByte(',')
			}
			buf.WriteString(g.dialect.QuoteVar(i + len(columns) + 1))
''')], MONEY_, TEXT_ + '''
func TestDemo(t *testing.T) {
	q := first(model.Share{}.UpdateOneByPKStmt())
	want := " = (ENC(?),ENC(?));"
	same(t, q[len(q)-len(want):], want)
}
''', config=FUNCS_)

PAIR_ = '''
package model

type Stock struct {
	Shop  int64 `sql:",pk"`
	Item  int64 `sql:",pk"`
	Count int64
	Price int64
}
'''
dbseed("c02-key-number", "C02",
       "updating a record with two keys on postgres",
       "The parameters of the keys are numbered as if the keys were already among the columns.",
       [(GEN_, '''		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
			return g.MustQuoteIdentifier(v.Name)
		})
		buf.WriteString("(" + strings.Join(keyNames, ",") + ")" + " = ")
		buf.WriteByte('(')
		for i, k := range t.Keys {
			if i > 0 {
				buf.WriteByte(',')
			}
			valuer, err := g.sqlValuer(k, i+len(columns))
			if err != nil {
				return err
			}
			buf.WriteString(valuer)
		}
		buf.WriteByte(')')
		columns = append(columns, t.Keys...)
''', '''		keyNames := make([]string, 0, len(t.Keys))
		keyVars := make([]string, 0, len(t.Keys))
		for i, k := range t.Keys {
			valuer, err := g.sqlValuer(k, i+len(columns))
			if err != nil {
				return err
			}
			columns = append(columns, k)
			keyNames = append(keyNames, g.MustQuoteIdentifier(k.Name))
			keyVars = append(keyVars, valuer)
		}
		buf.WriteString("(" + strings.Join(keyNames, ",") + ") = (" + strings.Join(keyVars, ",") + ")")
''')], PAIR_, TEXT_ + '''
func TestDemo(t *testing.T) {
	q, args := model.Stock{}.UpdateOneByPKStmt()
	want := `("shop","item") = ($3,$4);`
	same(t, q[len(q)-len(want):], want)
	if len(args) != 4 {
		t.Error(args)
	}
}
''', driver="postgres")
