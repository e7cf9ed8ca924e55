package main

import (
	"database/sql"
	"math"
	"strconv"
	"time"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

func opts() (st []bool, strict bool) {
	switch sym.Choose("opts", 3) {
	case 1:
		return []bool{false}, false
	case 2:
		return []bool{true}, true
	}
	return nil, false
}

type strLike interface{ ~string }

func strAll[T strLike](s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner, strict bool) {
	prior := T(sym.String("prior", 0, 2))
	var v any
	var want string
	soft, bad := false, false
	switch sym.Choose("src", 7) {
	case 0:
		b := sym.Bytes("b", 0, sym.B(4, 8))
		v, want = b, string(b)
	case 1:
		b := sym.String("b", 0, sym.B(4, 8))
		v, want = b, b
	case 2:
		b := sym.Bool("v")
		v, want, soft = b, strconv.FormatBool(b), true
	case 3:
		b := sym.Int64("v")
		v, want, soft = b, strconv.FormatInt(b, 10), true
	case 4:
		b := sym.Float64("v")
		v, want, soft = b, strconv.FormatFloat(b, 'f', -1, 64), true
	case 5:
		t := time.Date(2024, 2, 29, 23, 59, 58, 123000000, time.UTC)
		v, want, soft = t, t.String(), true
	default:
		v, bad = struct{}{}, true
	}
	err, got, isNil, _ := scanInto(prior, v, s1, s2)
	if bad || (soft && strict) {
		sym.Cover("rejected")
		sym.Assert(err != nil, "driver value that is not text accepted")
		sym.Assert(got == prior, "failed read changed the destination")
		return
	}
	sym.Cover("accepted")
	sym.Assert(err == nil, "value rejected")
	sym.Assert(sym.And(string(got) == want, !isNil), "text value changed")
}

func E05_String() {
	st, strict := opts()
	strAll(func(p *string) sql.Scanner { return encoding.StringScanner[string](p, st...) }, func(p **string) sql.Scanner { return encoding.StringScanner[string](p, st...) }, strict)
}
func E05_NamedString() {
	st, strict := opts()
	strAll(func(p *myStr) sql.Scanner { return encoding.StringScanner[myStr](p, st...) }, func(p **myStr) sql.Scanner { return encoding.StringScanner[myStr](p, st...) }, strict)
}

func E05_Bytes() {
	st, strict := opts()
	var v any
	var want string
	soft := false
	switch sym.Choose("src", 5) {
	case 0:
		b := sym.Bytes("b", 0, sym.B(4, 8))
		v, want = b, string(b)
	case 1:
		b := sym.String("b", 0, sym.B(4, 8))
		v, want = b, b
	case 2:
		b := sym.Bool("v")
		v, want, soft = b, strconv.FormatBool(b), true
	case 3:
		b := sym.Int64("v")
		v, want, soft = b, strconv.FormatInt(b, 10), true
	default:
		b := sym.Float64("v")
		v, want, soft = b, strconv.FormatFloat(b, 'f', -1, 64), true
	}
	old := []byte("old")
	var err error
	var got []byte
	if sym.Choose("dest", 2) == 0 {
		d := old
		err = encoding.StringScanner[[]byte](&d, st...).Scan(v)
		got = d
	} else {
		p := &old
		q := p
		err = encoding.StringScanner[[]byte](&p, st...).Scan(v)
		sym.Assert(err == nil || p == q, "failed read replaced the pointer")
		got = *p
	}
	sym.Assert(string(old) == "old", "old pointee overwritten")
	if soft && strict {
		sym.Cover("rejected")
		sym.Assert(err != nil, "driver value that is not text accepted")
		sym.Assert(string(got) == "old", "failed read changed the destination")
		return
	}
	sym.Cover("accepted")
	sym.Assert(err == nil, "value rejected")
	sym.Assert(string(got) == want, "text value changed")
}

func boolAll[T ~bool](s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner, strict bool) {
	prior := T(sym.Bool("prior"))
	var v any
	var want, good, soft bool
	switch sym.Choose("src", 6) {
	case 0:
		want = sym.Bool("v")
		v, good = want, true
	case 1:
		i := sym.Int64("v")
		v, want, good = i, i != 0, true
	case 2, 3:
		b := sym.Bytes("b", 0, sym.B(5, 6))
		switch string(b) {
		case "1", "t", "T", "true", "TRUE", "True":
			want, good = true, true
		case "0", "f", "F", "false", "FALSE", "False":
			good = true
		}
		soft = true
		v = textSrc(b)
	case 4:
		v = sym.Float64("f")
	default:
		v = struct{}{}
	}
	err, got, isNil, _ := scanInto(prior, v, s1, s2)
	if !good || soft && strict {
		sym.Cover("rejected")
		sym.Assert(err != nil, "driver value that is not a boolean accepted")
		sym.Assert(got == prior, "failed read changed the destination")
		return
	}
	sym.Cover("accepted")
	sym.Assert(err == nil, "value rejected")
	sym.Assert(sym.And(bool(got) == want, !isNil), "boolean value changed")
}

func E05_Bool() {
	st, strict := opts()
	boolAll(func(p *bool) sql.Scanner { return encoding.BoolScanner[bool](p, st...) }, func(p **bool) sql.Scanner { return encoding.BoolScanner[bool](p, st...) }, strict)
}
func E05_NamedBool() {
	st, strict := opts()
	boolAll(func(p *myBool) sql.Scanner { return encoding.BoolScanner[myBool](p, st...) }, func(p **myBool) sql.Scanner { return encoding.BoolScanner[myBool](p, st...) }, strict)
}

type anyFloat interface{ ~float32 | ~float64 }

func floatAll[T anyFloat](bits int, s1 func(*T) sql.Scanner, s2 func(**T) sql.Scanner, strict bool) {
	prior := T(1.5)
	var v any
	var want float64
	good, soft := true, false
	switch sym.Choose("src", 7) {
	case 5:
		// integers around the precision of a 32-bit float
		b := append([]byte("1677721"), sym.Bytes("b", 1, 2)...)
		for _, c := range b[7:] {
			sym.Assume(sym.And(c >= '0', c <= '9'))
		}
		want, _ = strconv.ParseFloat(string(b), bits)
		soft = true
		v = textSrc(b)
	case 6:
		// decimals that need the precision and range of the type
		dec := []string{"0.1", "3.141592653589793", "-2.718281828459045e-5", "123456789.125", "1e-40", "3.4028234e38"}
		if bits == 64 {
			dec = append(dec, "1.7976931348623157e308", "5e-324", "1e300")
		}
		b := []byte(dec[sym.Choose("dec", len(dec))])
		want, _ = strconv.ParseFloat(string(b), bits)
		soft = true
		v = textSrc(b)
	case 0:
		f := sym.Float64("v")
		sym.Assume(f == f)
		v, want = f, f
		if bits == 32 {
			want = float64(float32(f))
			// the first number that no longer rounds to a finite one
			const lim = 0x1.ffffffp127
			good = !sym.FixBool(sym.And(sym.Or(f >= lim, f <= -lim), f <= math.MaxFloat64, f >= -math.MaxFloat64))
		}
	case 1:
		i := sym.Int64("v")
		v, want = i, float64(i)
		if bits == 32 {
			want = float64(float32(i))
		}
	case 2:
		b := sym.Bytes("b", 0, sym.B(4, 6))
		f, err := strconv.ParseFloat(string(b), bits)
		good, soft = err == nil, true
		want = f
		v = textSrc(b)
	case 3:
		// a decimal the size of the limits
		lo, hi := sym.B(6, 8), sym.B(9, 15)
		if bits == 32 {
			lo, hi = 6, 7
		}
		b := sym.Bytes("b", lo, hi)
		for _, c := range b {
			sym.Assume(sym.And(c >= '0', c <= '9'))
		}
		want, _ = strconv.ParseFloat(string(b), bits)
		soft = true
		v = textSrc(b)
	default:
		good = false
		v = sym.Bool("b")
	}
	err, got, isNil, _ := scanInto(prior, v, s1, s2)
	if !good || soft && strict {
		sym.Cover("rejected")
		sym.Assert(err != nil, "driver value that is not a number of the type accepted")
		sym.Assert(got == prior, "failed read changed the destination")
		return
	}
	sym.Cover("accepted")
	sym.Assert(err == nil, "value rejected")
	sym.Assert(sym.And(math.Float64bits(float64(got)) == math.Float64bits(want), !isNil), "number changed")
}

func E05_Float64() {
	st, strict := opts()
	floatAll(64, func(p *float64) sql.Scanner { return encoding.Float64Scanner[float64](p, st...) }, func(p **float64) sql.Scanner { return encoding.Float64Scanner[float64](p, st...) }, strict)
}
func E05_NamedFloat64() {
	st, strict := opts()
	floatAll(64, func(p *myF64) sql.Scanner { return encoding.Float64Scanner[myF64](p, st...) }, func(p **myF64) sql.Scanner { return encoding.Float64Scanner[myF64](p, st...) }, strict)
}
func E05_Float32() {
	st, strict := opts()
	floatAll(32, func(p *float32) sql.Scanner { return encoding.Float32Scanner[float32](p, st...) }, func(p **float32) sql.Scanner { return encoding.Float32Scanner[float32](p, st...) }, strict)
}
func E05_NamedFloat32() {
	st, strict := opts()
	floatAll(32, func(p *myF32) sql.Scanner { return encoding.Float32Scanner[myF32](p, st...) }, func(p **myF32) sql.Scanner { return encoding.Float32Scanner[myF32](p, st...) }, strict)
}

// values that know how to read themselves get what the driver delivered
func E05_Text() {
	var v any
	var want string
	switch sym.Choose("src", 5) {
	case 0:
		b := sym.Bytes("b", 0, sym.B(4, 8))
		v, want = b, string(b)
	case 1:
		b := sym.String("b", 0, sym.B(4, 8))
		v, want = b, b
	case 2:
		i := sym.Int64("i")
		v, want = i, strconv.FormatInt(i, 10)
	case 3:
		f := sym.Float64("f")
		v, want = f, strconv.FormatFloat(f, 'f', -1, 64)
	default:
		v = struct{}{}
	}
	prior := text{S: "old"}
	switch sym.Choose("dest", 3) {
	case 0:
		d := prior
		err := encoding.TextScanner[text, *text](&d).Scan(v)
		if v == any(struct{}{}) {
			sym.Assert(err != nil && d == prior, "unsupported driver value accepted")
			return
		}
		sym.Assert(err == nil && d.Set && d.S == want, "text given to the value differs from what the driver delivered")
	case 1:
		var p *text
		err := encoding.TextScanner[text, *text](&p).Scan(v)
		if v == any(struct{}{}) {
			sym.Assert(err != nil && p == nil, "unsupported driver value accepted")
			return
		}
		sym.Assert(err == nil && p != nil && p.Set && p.S == want, "text given to the value differs from what the driver delivered")
	default:
		d := prior
		p := &d
		err := encoding.TextScanner[text, *text](&p).Scan(v)
		if v == any(struct{}{}) {
			sym.Assert(err != nil && p == &d && d == prior, "unsupported driver value accepted")
			return
		}
		sym.Assert(err == nil && p != nil && p.Set && p.S == want, "text given to the value differs from what the driver delivered")
	}
	sym.Cover("text")
}

func E05_Pointer() {
	var v any
	switch sym.Choose("src", 5) {
	case 0:
		v = sym.String("b", 0, 3)
	case 1:
		v = sym.Int64("i")
	case 2:
		v = sym.Bool("b")
	case 3:
		f := sym.Float64("f")
		sym.Assume(f == f)
		v = f
	default:
		v = sym.Bytes("b", 0, 3)
	}
	var p *scn
	if sym.Bool("set") {
		p = &scn{}
	}
	err := encoding.PtrScanner(&p).Scan(v)
	sym.Assert(err == nil && p != nil && p.Got, "value rejected")
	if b, ok := v.([]byte); ok {
		g, ok := p.V.([]byte)
		sym.Assert(ok && string(g) == string(b), "value given to the field differs from what the driver delivered")
	} else {
		sym.Assert(p.V == v, "value given to the field differs from what the driver delivered")
	}
	sym.Cover("pointer")
}

// times are passed on unchanged, integers are seconds since 1970
func E05_Time() {
	var v any
	var want time.Time
	if sym.Choose("src", 2) == 0 {
		want = someTime()
		v = want
	} else {
		s := sym.Int64("s")
		v, want = s, time.Unix(s, 0)
	}
	if sym.Choose("dest", 2) == 0 {
		d := time.Unix(5, 5)
		sym.Assert(encoding.TimeScanner(&d).Scan(v) == nil && d == want, "time changed")
	} else {
		old := time.Unix(5, 5)
		p := &old
		sym.Assert(encoding.TimeScanner(&p).Scan(v) == nil && *p == want, "time changed")
		sym.Assert(old == time.Unix(5, 5), "old pointee overwritten")
	}
	sym.Cover("time")
}
