// Package model holds the structs the generator is run on.
package model

import (
	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/model/conv"
)

type Auto struct {
	ID   int64 `sql:",pk,auto_increment"`
	Name string
	Age  uint8
	Note *string
}

type AutoLast struct {
	Name string
	Code string `sql:"the_code"`
	Seq  uint32 `sql:",pk,auto_increment"`
}

type Nat struct {
	Label string
	Code  string `sql:",pk"`
	Qty   int32
	Opt   *int64
}

type Comp struct {
	A    string
	Shop string `sql:",pk"`
	B    int64
	Num  int64 `sql:"k_two,pk"`
	Flag bool
}

type RO struct {
	Name  string
	ID    int64 `sql:",pk"`
	Stamp int64 `sql:",readonly"`
	Val   int64
}

type AutoRO struct {
	Stamp int64 `sql:",readonly"`
	ID    int64 `sql:",pk,auto_increment"`
	Name  string
	Val   int64
}

type Plain struct {
	A int64
	B string
}

type Named struct {
	_      sequel.TableName `sql:"the_names"`
	Skip   string           `sql:"-"`
	ID     int64            `sql:",pk"`
	Val    string
	hidden int
}

type Only struct {
	ID int64 `sql:",pk"`
}

type OnlyPair struct {
	L int64  `sql:",pk"`
	R string `sql:",pk"`
}

// Uniq is kept unique by a column that is not its key.
type Uniq struct {
	ID     int64 `sql:",pk,auto_increment"`
	Email  string
	Visits int64
	Born   int64
	Stamp  int64 `sql:",readonly"`
}

func (Uniq) DuplicateKeys() []string       { return []string{"email"} }
func (Uniq) OnUpsertOmitColumns() []string { return []string{`"born"`} }

type Item struct {
	ID   int64 `sql:",pk"`
	Cat  string
	Qty  int32
	Opt  *int64
	Flag bool `sql:"is_flag"`
}

// DatabaseName is the database the items are in.
func (Item) DatabaseName() string { return "stock" }

type Place struct {
	City string
	Zip  *int64
}

// Emb embeds a pointer to a struct.
type Emb struct {
	ID int64 `sql:",pk"`
	*Place
	Note *string
}

// Amount has SQL functions of its own.
type Amount int64

type Cust struct {
	ID int64 `sql:",pk,auto_increment"`
	A  Amount
	B  *Amount
	C  string
	T  conv.Temp
	S  conv.Spot
}

type CustGo struct {
	T conv.Temp
	K conv.Temp `sql:",pk"`
	N string
	P *conv.Temp
}

type CustKey struct {
	C string
	K Amount `sql:",pk"`
	S conv.Spot
}

type CustPair struct {
	K conv.Spot `sql:",pk"`
	A Amount
	L string `sql:",pk"`
}
