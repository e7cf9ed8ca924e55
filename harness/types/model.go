// Package model holds structs with fields of every kind the generator supports.
package model

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"time"

	kind1 "github.com/si3nloong/sqlgen/zzverif/gen/model/99x/kind"
	unit "github.com/si3nloong/sqlgen/zzverif/gen/model/go-unit"
	"github.com/si3nloong/sqlgen/zzverif/gen/model/kind"
)

type Text string

type Flag bool

type Small int8

type Big uint32

type Real float32

// Level is a number kept under a name.
type Level int8

func (l Level) MarshalText() ([]byte, error) {
	switch l {
	case 1:
		return []byte("low"), nil
	case 2:
		return []byte("high"), nil
	}
	return nil, errors.New("no such level")
}

func (l *Level) UnmarshalText(b []byte) error {
	switch string(b) {
	case "low":
		*l = 1
	case "high":
		*l = 2
	default:
		return errors.New("no such level")
	}
	return nil
}

// Cents is kept as another number by its own methods.
type Cents int64

func (c Cents) Value() (driver.Value, error) { return int64(c) ^ 1, nil }

func (c *Cents) Scan(v any) error {
	n, ok := v.(int64)
	if !ok {
		return errors.New("not a number")
	}
	*c = Cents(n ^ 1)
	return nil
}

// Pair is a struct that stores itself.
type Pair struct{ A, B byte }

func (p Pair) Value() (driver.Value, error) { return string([]byte{'<', p.A, p.B}), nil }

func (p *Pair) Scan(v any) error {
	s, ok := v.(string)
	if b, is := v.([]byte); is {
		s, ok = string(b), true
	}
	if !ok || len(s) != 3 {
		return errors.New("not a pair")
	}
	p.A, p.B = s[1], s[2]
	return nil
}

type Words struct {
	ID int64 `sql:",pk"`
	A  string
	B  Text
	C  *string
	D  *Text
	E  string `sql:",size:20"`
}

type Flags struct {
	ID int64 `sql:",pk"`
	A  bool
	B  Flag
	C  *bool
	D  *Flag
}

type Ints struct {
	ID int64 `sql:",pk"`
	A  int
	B  int8
	C  int16
	D  int32
	E  int64
	F  Small
}

type Uints struct {
	ID int64 `sql:",pk"`
	A  uint
	B  uint8
	C  uint16
	D  uint32
	E  uint64
	F  Big
}

type IntPtrs struct {
	ID int64 `sql:",pk"`
	A  *int
	B  *int8
	C  *int16
	D  *int32
	E  *int64
	F  *Small
}

type UintPtrs struct {
	ID int64 `sql:",pk"`
	A  *uint
	B  *uint8
	C  *uint16
	D  *uint32
	E  *uint64
	F  *Big
}

type Floats struct {
	ID int64 `sql:",pk"`
	A  float32
	B  float64
	C  Real
	D  *float32
	E  *float64
}

type Char struct {
	ID int64 `sql:",pk"`
	A  rune
}

type Byte struct {
	ID int64 `sql:",pk"`
	A  byte
	B  *byte
}

type Times struct {
	ID int64 `sql:",pk"`
	A  time.Time
	B  *time.Time
}

type Blobs struct {
	ID int64 `sql:",pk"`
	A  []byte
	B  json.RawMessage
	C  *[]byte
}

type Raw struct {
	ID int64 `sql:",pk"`
	A  sql.RawBytes
}

type Fixed struct {
	ID int64 `sql:",pk"`
	A  [4]byte
	B  [2]rune
}

type Nulls struct {
	ID int64 `sql:",pk"`
	A  sql.NullString
	B  sql.NullInt64
	C  sql.NullBool
	D  sql.NullFloat64
	E  sql.NullTime
	F  sql.NullInt32
}

type Own struct {
	ID int64 `sql:",pk"`
	A  Level
	B  *Level
	C  Cents
	D  *Cents
	E  Pair
	F  *Pair
}

type Lists struct {
	ID int64 `sql:",pk"`
	A  []string
	B  []bool
	C  []int
	D  []int64
	E  []uint8
	F  []float64
}

type Lists2 struct {
	ID int64 `sql:",pk"`
	A  []int8
	B  []int16
	C  []int32
	D  []uint
	E  []uint16
	F  []uint32
}

type Lists3 struct {
	ID int64 `sql:",pk"`
	A  []uint64
	B  []float32
	C  []Text
	D  []Small
}

type inner struct {
	City string
	Zip  *int64
}

type Outer struct {
	ID int64 `sql:",pk"`
	inner
	Note string
}

// Odd has lists without a representation of their own.
type Odd struct {
	ID int64 `sql:",pk"`
	A  []rune
	B  [][]byte
	C  [3]string
	D  [2]bool
}

type Place struct {
	Town *string
	Code int64
}

type Placed struct {
	ID int64 `sql:",pk"`
	*Place
	Note *string
}

type Code [4]byte

type Letters [2]rune

type Blob []byte

type Moment = time.Time

type Str = string

// Named has fields whose kind stands behind a name.
type Named struct {
	ID int64 `sql:",pk"`
	A  Code
	B  Letters
	C  Blob
	D  *Blob
	E  Moment
	F  *Moment
	G  Str
	H  *Str
}

type Tags []string

type Nums []int32

type Bools []bool

type Text2 []Text

// Lists4 has named lists.
type Lists4 struct {
	ID int64 `sql:",pk"`
	A  Tags
	B  Nums
	C  Bools
	D  Text2
}

// Meta and the like are kept as JSON.
type Meta struct {
	A int64   `json:"a,omitempty"`
	T *string `json:"t,omitempty"`
}

type Counts map[string]int64

type Docs struct {
	ID int64 `sql:",pk"`
	A  Meta
	B  *Meta
	C  map[string]int64
	D  Counts
	E  []Meta
	F  [2]int64
	G  []*string
}

// Foreign has types of other packages, some of the same name.
type Foreign struct {
	ID int64 `sql:",pk"`
	A  kind.Kind
	B  kind1.Kind
	C  *unit.Unit
	D  sql.Null[unit.Unit]
	E  []kind1.Kind
	F  kind.Pair[kind1.Kind]
}
