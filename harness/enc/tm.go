package main

import (
	"time"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// digits appends n symbolic decimal digits and returns the number they denote.
func digits(b *[]byte, name string, n int) int {
	d := sym.Bytes(name, n, n)
	var x uint64
	for _, c := range d {
		sym.Assume(sym.And(c >= '0', c <= '9'))
		x = x*10 + uint64(c) - '0'
	}
	*b = append(*b, d...)
	return int(x)
}

func pow10(n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

func scanTime(b []byte) (time.Time, error) {
	v := textSrc(b)
	prior := time.Date(1999, 1, 2, 3, 4, 5, 6, time.UTC)
	if sym.Choose("dest", 2) == 0 {
		d := prior
		err := encoding.TimeScanner(&d).Scan(v)
		sym.Assert(err == nil || d == prior, "failed read changed the destination")
		return d, err
	}
	p := &prior
	q := p
	err := encoding.TimeScanner(&p).Scan(v)
	sym.Assert(prior == time.Date(1999, 1, 2, 3, 4, 5, 6, time.UTC), "old pointee overwritten")
	sym.Assert(err == nil || p == q, "failed read changed the destination")
	return *p, err
}

func date(b *[]byte) (y, m, d int) {
	head := []int{20, 19, 0, 99}[sym.Choose("century", sym.B(2, 4))]
	*b = append(*b, byte('0'+head/10), byte('0'+head%10))
	y = head*100 + digits(b, "year", 2)
	*b = append(*b, '-')
	m = sym.Choose("month", 14)
	*b = append(*b, byte('0'+m/10), byte('0'+m%10))
	*b = append(*b, '-')
	d = digits(b, "day", 2)
	return
}

func clock(b *[]byte) (h, m, s int) {
	h = digits(b, "hour", 2)
	*b = append(*b, ':')
	m = digits(b, "min", 2)
	*b = append(*b, ':')
	s = digits(b, "sec", 2)
	return
}

func verdict(err error, got, want time.Time, ok bool) {
	if ok {
		sym.Cover("valid")
		sym.Assert(err == nil, "valid time rejected")
		if err == nil {
			sym.Assert(got.Equal(want), "another point in time read")
		}
	} else {
		sym.Cover("invalid")
		sym.Assert(err != nil, "impossible time accepted")
	}
}

func E07_Date() {
	var b []byte
	y, m, d := date(&b)
	ok := sym.FixBool(sym.And(m >= 1, m <= 12, d >= 1, d <= 31))
	if ok {
		ok = sym.FixBool(d <= daysIn(y, m))
	}
	got, err := scanTime(b)
	verdict(err, got, time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC), ok)
}

func E07_DateTime() {
	b := []byte("2024-02-29 ")
	h, mi, s := clock(&b)
	got, err := scanTime(b)
	ok := sym.FixBool(sym.And(h < 24, mi < 60, s < 60))
	verdict(err, got, time.Date(2024, 2, 29, h, mi, s, 0, time.UTC), ok)
}

func E07_Fraction() {
	b := []byte("2024-12-31 23:59:5")
	s := digits(&b, "sec", 1)
	b = append(b, '.')
	n := 1 + sym.Choose("n", 9)
	f := digits(&b, "frac", n)
	f *= pow10(9 - n)
	got, err := scanTime(b)
	verdict(err, got, time.Date(2024, 12, 31, 23, 59, 50+s, f, time.UTC), true)
}

func E07_RFC3339() {
	b := []byte("2023-07-1")
	var want time.Time
	ok := true
	if sym.Choose("frac", 2) == 0 {
		d := digits(&b, "day", 1)
		b = append(b, 'T')
		h, mi, s := clock(&b)
		z := sym.Choose("zone", 4)
		b = append(b, []string{"Z", "+08:00", "-05:30", "+00:00"}[z]...)
		ok = sym.FixBool(sym.And(h < 24, mi < 60, s < 60))
		want = time.Date(2023, 7, 10+d, h, mi, s, 0, time.UTC).Add(-[]time.Duration{0, 480, -330, 0}[z] * time.Minute)
	} else {
		b = append(b, "5T01:02:03."...)
		n := 1 + sym.Choose("n", 9)
		f := digits(&b, "frac", n) * pow10(9-n)
		b = append(b, 'Z')
		want = time.Date(2023, 7, 15, 1, 2, 3, f, time.UTC)
	}
	got, err := scanTime(b)
	verdict(err, got, want, ok)
}

// anything else is refused
func E07_Junk() {
	b := sym.Bytes("b", 0, sym.B(10, 12))
	for _, c := range b {
		sym.Assume(sym.Or(sym.And(c >= '0', c <= '1'), c == '-', c == ' ', c == ':'))
	}
	if len(b) == 10 {
		sym.Assume(sym.Or(b[4] != '-', b[7] != '-'))
	}
	_, err := scanTime(b)
	sym.Cover("junk")
	sym.Assert(err != nil, "text that is not a time accepted")
}
