package main

import (
	"database/sql"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

const (
	dialect   = symsql.MySQL
	returning = false
)

type insPtr[T any] interface {
	sequel.ColumnValuer
	sequel.PtrScanner[T]
}

func insertOne[T sequel.ColumnValuer, P insPtr[T]](d *sql.DB, m P) error {
	_, err := db.InsertOne[T, P](ctx, d, m)
	return err
}

func insertMany[T sequel.Inserter, P sequel.PtrScanner[T]](d *sql.DB, data []T) (sql.Result, error) {
	return db.Insert(ctx, d, data)
}

// locks are the row locks of the database.
var locks = []sequel.RowLevelLocker{db.LockForUpdate, db.LockForShare}

func placeholders(row, n int) string { return "(" + strings.Repeat(",?", n)[1:] + ")" }

func upsertOne[T sequel.KeyValuer, P sequel.KeyValueScanner[T]](d *sql.DB, m P, override bool, omit []string) error {
	_, err := db.UpsertOne[T, P](ctx, d, m, override, omit...)
	return err
}

func upsertMany[T upserted, P sequel.PtrScanner[T]](d *sql.DB, data []T, override bool, omit []string) (sql.Result, error) {
	return db.Upsert[T, P](ctx, d, data, override, omit...)
}

type ptrOf[T any] interface{ sequel.KeyValueScanner[T] }

func ident(name string) string { return name }

// limits tells whether updates and deletes can be limited.
const limits = true

func updateStmt(set []sequel.SetClause, where sequel.WhereClause, by []sequel.OrderByClause, limit int) db.UpdateStmt {
	return db.UpdateStmt{Set: set, Where: where, OrderBy: by, Limit: uint16(limit)}
}

func deleteStmt(where sequel.WhereClause, by []sequel.OrderByClause, limit int) db.DeleteStmt {
	return db.DeleteStmt{Where: where, OrderBy: by, Limit: uint16(limit)}
}
