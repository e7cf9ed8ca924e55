package main

import (
	"database/sql"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

const dialect = symsql.MySQL

type record[T any] interface {
	sequel.KeyValueScanner[T]
	sequel.Inserter
}

func insertOne[T sequel.KeyValuer, P record[T]](d *sql.DB, m P) error {
	_, err := db.InsertOne[T, P](ctx, d, m)
	return err
}
