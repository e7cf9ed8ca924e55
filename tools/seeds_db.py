TPL_ = "cmd/sqlgen/codegen/templates/db.go.tpl"
OPS_ = "cmd/sqlgen/codegen/templates/operator.go.tpl"
CMP_ = "cmd/sqlgen/internal/compiler/compiler.go"
HEAD = '''
package zzgen

import (
	"context"
	"database/sql"
	"testing"

	_ "github.com/mattn/go-sqlite3"

	"github.com/si3nloong/sqlgen/examples/zzgen/db"
	"github.com/si3nloong/sqlgen/examples/zzgen/model"
)

var ctx = context.Background()

func open(t *testing.T, stmts ...string) *sql.DB {
	c, err := sql.Open("sqlite3", ":memory:")
	if err != nil {
		t.Fatal(err)
	}
	c.SetMaxOpenConns(1)
	for _, s := range stmts {
		if _, err := c.Exec(s); err != nil {
			t.Fatal(err)
		}
	}
	return c
}

func text(t *testing.T, c *sql.DB, q string) string {
	var s sql.NullString
	if err := c.QueryRow(q).Scan(&s); err != nil {
		t.Fatal(err)
	}
	return s.String
}
'''
FHEAD = '''
package zzgen

import (
	"context"
	"testing"

	"github.com/si3nloong/sqlgen/examples/zzgen/db"
	"github.com/si3nloong/sqlgen/examples/zzgen/model"
)

var ctx = context.Background()
'''

dbseed("c02-hand-key-order", "C02",
       "a hand-written model with a composite key whose columns are not listed in field order",
       "UpdateByPK takes the wrong columns out, so values are set in other columns.",
       [(TPL_, "\t\tsort.Ints(keyIdxs)\n\t\tfor i := len(keyIdxs) - 1; i >= 0; i-- {\n", "\t\tfor i := len(keyIdxs) - 1; i >= 0; i-- {\n")],
       '''
package model

type Dummy struct {
	ID int64 `sql:",pk"`
}
''', HEAD + '''
type seat struct{ Row, Name, Hall string }

func (seat) TableName() string { return "seat" }
func (seat) HasPK()            {}
func (seat) Columns() []string { return []string{"row", "name", "hall"} }
func (v seat) Values() []any   { return []any{v.Row, v.Name, v.Hall} }
func (v seat) CompositeKey() ([]string, []int, []any) {
	return []string{"hall", "row"}, []int{2, 0}, []any{v.Hall, v.Row}
}

var _ model.Dummy

func TestDemo(t *testing.T) {
	c := open(t, "CREATE TABLE seat (row TEXT, name TEXT, hall TEXT)", "INSERT INTO seat VALUES ('1', 'a', 'h')")
	if _, err := db.UpdateByPK(ctx, c, seat{"1", "b", "h"}); err != nil {
		t.Fatal(err)
	}
	if s := text(t, c, "SELECT row || name || hall FROM seat"); s != "1bh" {
		t.Fatal(s)
	}
}
''')

dbseed("c03-delete-hand-first-key", "C03",
       "deleting by key a hand-written model with a composite key, with other rows sharing the first part of the key",
       "The statement deletes every row with that first part: the others are compared with themselves.",
       [(TPL_, 'query := "DELETE FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"\n\t\treturn db.ExecContext(ctx, query, keys...)',
               'query := "DELETE FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }},"+strings.Join(keyNames[1:], ",")+");"\n\t\treturn db.ExecContext(ctx, query, keys[:1]...)')],
       '''
package model

type Dummy struct {
	ID int64 `sql:",pk"`
}
''', HEAD + '''
type seat struct{ Hall, Row, Name string }

func (seat) TableName() string { return "seat" }
func (seat) HasPK()            {}
func (seat) Columns() []string { return []string{"hall", "row", "name"} }
func (v seat) Values() []any   { return []any{v.Hall, v.Row, v.Name} }
func (v seat) CompositeKey() ([]string, []int, []any) {
	return []string{"hall", "row"}, []int{0, 1}, []any{v.Hall, v.Row}
}

var _ model.Dummy

func TestDemo(t *testing.T) {
	c := open(t, "CREATE TABLE seat (hall TEXT, row TEXT, name TEXT)", "INSERT INTO seat VALUES ('h', '1', 'a'), ('h', '2', 'b')")
	if _, err := db.DeleteByPK(ctx, c, seat{"h", "1", ""}); err != nil {
		t.Fatal(err)
	}
	if s := text(t, c, "SELECT group_concat(name) FROM seat"); s != "b" {
		t.Fatal(s)
	}
}
''')

dbseed("c05-shared-record", "C05",
       "a query whose result has several rows, of a model that embeds a pointer to a struct",
       "The rows are scanned into one variable, so all records share the embedded struct and show the values of the last row.",
       [(TPL_, '''	var result []T
	for rows.Next() {
		var v T
		if err''', '''	var result []T
	for rows.Next() {
		if err''')],
       '''
package model

type Body struct {
	Text string
}

type Note struct {
	ID int64 `sql:",pk"`
	*Body
}
''', HEAD + '''
func TestDemo(t *testing.T) {
	c := open(t, "CREATE TABLE note (id INTEGER, text TEXT)", "INSERT INTO note VALUES (1, 'a'), (2, 'b')")
	got, err := db.QueryStmt[model.Note](ctx, c, func(model.Note) db.SelectStmt { return db.SelectStmt{} })
	if err != nil || len(got) != 2 || got[0].Text != "a" || got[1].Text != "b" {
		t.Fatal(got, err)
	}
}
''')

dbseed("c05-offset-16", "C05",
       "a query with an offset above 65535",
       "The offset is cut to 16 bits like the limit, so the query begins at an earlier row.",
       [(TPL_, 'strconv.FormatUint(stmt.Offset, 10)', 'strconv.Itoa((int)((uint16)(stmt.Offset)))')],
       '''
package model

type Note struct {
	ID int64 `sql:",pk"`
}
''', HEAD + '''
func TestDemo(t *testing.T) {
	c := open(t, "CREATE TABLE note (id INTEGER)", "WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM n LIMIT 65540) INSERT INTO note SELECT i FROM n")
	got, err := db.QueryStmt[model.Note](ctx, c, func(v model.Note) db.SelectStmt {
		return db.SelectStmt{Offset: 65537, Limit: 10}
	})
	if err != nil || len(got) != 3 {
		t.Fatal(len(got), err)
	}
}
''')

dbseed("c06-second-order", "C06",
       "a mysql delete limited to the first rows of an order by two columns of different directions",
       "Every further column takes the direction of the first, so other rows are deleted.",
       [(TPL_, '''	case DeleteStmt:
''', '''	case DeleteStmt:
		for i := 1; i < len(vi.OrderBy); i++ {
			vi.OrderBy[i] = sequel.OrderByColumn(vi.OrderBy[i].ColumnName(), vi.OrderBy[0].Asc())
		}
''')],
       '''
package model

type Job struct {
	ID   int64 `sql:",pk"`
	Rank int64
}
''', FHEAD.replace('import (\n', 'import (\n\t"regexp"\n').replace('/model"\n', '/model"\n\t"github.com/si3nloong/sqlgen/sequel"\n') + '''
func TestDemo(t *testing.T) {
	var f fakeDB
	m := model.Job{}
	_, err := db.ExecStmt(ctx, f.open(), func(model.Job) db.DeleteStmt {
		return db.DeleteStmt{OrderBy: []sequel.OrderByClause{db.Asc(m.ColumnRank()), db.Desc(m.ColumnID())}, Limit: 1}
	})
	if err != nil || len(f.queries) != 1 || !regexp.MustCompile("(?i)id`? +desc").MatchString(f.queries[0]) {
		t.Fatal(f.queries, err)
	}
}
''', driver="mysql", fake=True)

dbseed("c07-no-stop", "C07",
       "a loop over the pages that is left before the last page",
       "The next page is fetched and handed to the loop that has ended, which panics.",
       [(TPL_, '''			if !yield(data[:noOfRecord-1], nil) {
				return
			}
''', '''			yield(data[:noOfRecord-1], nil)
''')],
       '''
package model

type Note struct {
	ID int64 `sql:",pk"`
}
''', HEAD + '''
func TestDemo(t *testing.T) {
	c := open(t, "CREATE TABLE note (id INTEGER PRIMARY KEY)", "INSERT INTO note VALUES (1), (2), (3)")
	n := 0
	for data, err := range db.Paginate[model.Note](db.PaginateStmt{Limit: 1}).Next(ctx, c) {
		if err != nil || len(data) != 1 || data[0].ID != 1 {
			t.Fatal(data, err)
		}
		n++
		break
	}
	if n != 1 {
		t.Fatal(n)
	}
}
''')

dbseed("q01-or-open", "Q01",
       "a disjunction of exactly two conditions within a conjunction",
       "It is written without brackets, so the conjunction takes only its nearest condition.",
       [(OPS_, '''			w.WriteByte('(')
			clauses[0](w)
			for i := 1; i < n; i++ {
				w.WriteString(" OR ")''', '''			if n == 2 {
				clauses[0](w)
				w.WriteString(" OR ")
				clauses[1](w)
				return
			}
			w.WriteByte('(')
			clauses[0](w)
			for i := 1; i < n; i++ {
				w.WriteString(" OR ")''')],
       '''
package model

type Note struct {
	ID   int64 `sql:",pk"`
	Kind int64
}
''', HEAD + '''
func TestDemo(t *testing.T) {
	c := open(t, "CREATE TABLE note (id INTEGER, kind INTEGER)", "INSERT INTO note VALUES (1, 1), (2, 2), (3, 1)")
	m := model.Note{}
	got, err := db.QueryStmt[model.Note](ctx, c, func(model.Note) db.SelectStmt {
		return db.SelectStmt{Where: db.And(db.Equal(m.ColumnKind(), 1), db.Or(db.Equal(m.ColumnID(), 1), db.Equal(m.ColumnID(), 2)))}
	})
	if err != nil || len(got) != 1 || got[0].ID != 1 {
		t.Fatal(got, err)
	}
}
''')

dbseed("q01-vars-number", "Q01",
       "on postgres, a condition after a list of two or more values",
       "The list does not count its values, so the next placeholder repeats a number of the list.",
       [(TPL_, '''	i := s.pos
	s.pos += noOfLen
	for ; i < s.pos; i++ {
		if i < s.pos-1 {''', '''	i, end := s.pos, s.pos+noOfLen
	s.pos++
	for ; i < end; i++ {
		if i < end-1 {''')],
       '''
package model

type Note struct {
	ID   int64 `sql:",pk"`
	Kind int64
}
''', FHEAD.replace('import (\n', 'import (\n\t"regexp"\n') + '''
func TestDemo(t *testing.T) {
	f := fakeDB{cols: []string{"id", "kind"}}
	m := model.Note{}
	_, err := db.QueryStmt[model.Note](ctx, f.open(), func(model.Note) db.SelectStmt {
		return db.SelectStmt{Where: db.And(db.In(m.ColumnID(), []int64{1, 2}), db.Equal(m.ColumnKind(), 7))}
	})
	if err != nil || len(f.queries) != 1 || len(f.args[0]) != 3 {
		t.Fatal(f.queries, f.args, err)
	}
	seen := map[string]bool{}
	for _, v := range regexp.MustCompile(`\\$[0-9]+`).FindAllString(f.queries[0], -1) {
		if seen[v] {
			t.Fatal(f.queries[0])
		}
		seen[v] = true
	}
}
''', driver="postgres", fake=True)

dbseed("c01-returned-order", "C01",
       "inserting several records on postgres into a table whose rows get values from the database",
       "Every returned row is scanned into the last record that has none yet, so records get the rows of others.",
       [(TPL_, '''		return sequel.NewRowsAffectedResult(i), rows.Close()
	default:
		noOfCols := len(columns)
		args := make([]any, 0, noOfCols*noOfData)
		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
		args = append(args, data[0].Values()...)
		for i := 1; i < noOfData; i++ {
			stmt.WriteString("," + model.InsertPlaceholders(i))
			args = append(args, data[i].Values()...)
		}
''', '''		return sequel.NewRowsAffectedResult(i), rows.Close()
	default:
		noOfCols := len(columns)
		args := make([]any, 0, noOfCols*noOfData)
		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
		args = append(args, data[0].Values()...)
		for i := noOfData - 1; i > 0; i-- {
			stmt.WriteString("," + model.InsertPlaceholders(noOfData-i))
			args = append(args, data[i].Values()...)
		}
''')],
       '''
package model

type Note struct {
	ID   int64 `sql:",pk"`
	Text string
}
''', FHEAD.replace('import (\n', 'import (\n\t"database/sql/driver"\n') + '''
func TestDemo(t *testing.T) {
	f := fakeDB{cols: []string{"id", "text"}}
	data := []model.Note{{1, "a"}, {2, "b"}, {3, "c"}}
	sent := append([]model.Note(nil), data...)
	if _, err := db.Insert(ctx, f.open(), append([]model.Note(nil), data...)); err != nil || len(f.args) != 1 || len(f.args[0]) != 6 {
		t.Fatal(f.args, err)
	}
	// the database returns the rows as they were sent
	for i := 0; i < 6; i += 2 {
		f.rows = append(f.rows, []driver.Value{f.args[0][i], f.args[0][i+1]})
	}
	if _, err := db.Insert(ctx, f.open(), data); err != nil {
		t.Fatal(err)
	}
	for i := range data {
		if data[i] != sent[i] {
			t.Fatal(data)
		}
	}
}
''', driver="postgres", fake=True)
