// Package conv holds types whose conversions are configured.
package conv

import (
	"database/sql"
	"errors"
)

var errSrc = errors.New("conv: unexpected source")

// Temp is stored in another unit.
type Temp struct{ Deg int64 }

const unit = 0x5a5a

func Value(t Temp) any { return t.Deg ^ unit }

type temp struct{ p *Temp }

func (t temp) Scan(src any) error {
	v, ok := src.(int64)
	if !ok {
		return errSrc
	}
	t.p.Deg = v ^ unit
	return nil
}

func Scan(p *Temp) sql.Scanner { return temp{p} }

type tempPtr struct{ p **Temp }

func (t tempPtr) Scan(src any) error {
	if src == nil {
		*t.p = nil
		return nil
	}
	*t.p = new(Temp)
	return temp{*t.p}.Scan(src)
}

func ScanPtr(p **Temp) sql.Scanner { return tempPtr{p} }

// Spot is stored as one number, which an SQL function converts.
type Spot struct{ X, Y int32 }

func SpotValue(s Spot) any { return int64(s.X)<<32 | int64(uint32(s.Y)) }

type spot struct{ p *Spot }

func (s spot) Scan(src any) error {
	v, ok := src.(int64)
	if !ok {
		return errSrc
	}
	*s.p = Spot{int32(v >> 32), int32(v)}
	return nil
}

func ScanSpot(p *Spot) sql.Scanner { return spot{p} }
