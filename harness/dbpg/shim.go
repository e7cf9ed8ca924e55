package main

import (
	"database/sql"
	"strconv"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

const (
	dialect   = symsql.Postgres
	returning = true
)

type insPtr[T any] interface {
	sequel.ColumnValuer
	sequel.PtrScanner[T]
}

func insertOne[T sequel.ColumnValuer, P insPtr[T]](d *sql.DB, m P) error {
	return db.InsertOne[T, P](ctx, d, m)
}

func insertMany[T sequel.Inserter, P sequel.PtrScanner[T]](d *sql.DB, data []T) (sql.Result, error) {
	return db.Insert[T, P](ctx, d, data)
}

// locks are the row locks of the database.
var locks = []sequel.RowLevelLocker{db.LockForUpdate, db.LockForNoKeyUpdate, db.LockForShare, db.LockForKeyShare}

func placeholders(row, n int) string {
	s := "("
	for i := 1; i <= n; i++ {
		if i > 1 {
			s += ","
		}
		s += "$" + strconv.Itoa(row*n+i)
	}
	return s + ")"
}

type ptrOf[T any] interface {
	sequel.KeyValueScanner[T]
	sequel.Inserter
}

// conflict names the columns conflicts are looked for in, other than those of the model.
var conflict []string

func options(override bool, omit []string) []db.UpsertOption {
	o := []db.UpsertOption{db.WithDoNothing(!override), db.WithOmitFields(omit...)}
	if conflict != nil {
		o = append(o, db.WithDuplicateKeys(conflict...))
	}
	return o
}

func upsertOne[T sequel.KeyValuer, P ptrOf[T]](d *sql.DB, m P, override bool, omit []string) error {
	return db.UpsertOne[T, P](ctx, d, m, options(override, omit)...)
}

func upsertMany[T upserted, P sequel.PtrScanner[T]](d *sql.DB, data []T, override bool, omit []string) (sql.Result, error) {
	return db.Upsert[T, P](ctx, d, data, options(override, omit)...)
}

func ident(name string) string { return `"` + name + `"` }

// limits tells whether updates and deletes can be limited.
const limits = false

func updateStmt(set []sequel.SetClause, where sequel.WhereClause, by []sequel.OrderByClause, limit int) db.UpdateStmt {
	return db.UpdateStmt{Set: set, Where: where, OrderBy: by}
}

func deleteStmt(where sequel.WhereClause, by []sequel.OrderByClause, limit int) db.DeleteStmt {
	return db.DeleteStmt{Where: where, OrderBy: by}
}
