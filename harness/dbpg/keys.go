package main

import (
	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// unique gives the records another unique column, which conflicts are looked for in.
func unique[T any](d desc[T], col string) desc[T] {
	d.uniq = []string{col}
	conflict = []string{ident(col)}
	return d
}

func upsertBy[T upserted, P ptrOf[T]](d desc[T], col string) {
	defer func() { conflict = nil }()
	upsertOneOf[T, P](unique(d, col))
}

func upsertManyBy[T upserted, P sequel.PtrScanner[T]](d desc[T], col string) {
	defer func() { conflict = nil }()
	upsertManyOf[T, P](unique(d, col))
}

func C04_Keys_One() {
	switch sym.Choose("model", 5) {
	case 0:
		upsertBy(dAuto, "name")
	case 1:
		upsertBy(dAutoLast, "the_code")
	case 2:
		upsertBy(dNat, "label")
	case 3:
		upsertBy(dComp, "b")
	case 4:
		upsertBy(dRO, "val")
	}
}

func C04_Keys_Many() {
	switch sym.Choose("model", 3) {
	case 0:
		upsertManyBy(dAuto, "name")
	case 1:
		upsertManyBy(dNat, "label")
	case 2:
		upsertManyBy(dRO, "val")
	}
}
