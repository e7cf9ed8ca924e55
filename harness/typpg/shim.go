package main

import (
	"database/sql"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

const dialect = symsql.Postgres

type record[T any] interface {
	sequel.ColumnValuer
	sequel.KeyValueScanner[T]
}

func insertOne[T sequel.KeyValuer, P record[T]](d *sql.DB, m P) error { return db.InsertOne[T, P](ctx, d, m) }
