package main

import (
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

func textSrc(b []byte) any {
	if sym.Choose("src", 2) == 0 {
		return string(b)
	}
	return b
}

// bytes into a fixed array of n (the array lies inside a larger one, which must not change)
func E04_ByteArray() {
	n := sym.Choose("n", sym.B(4, 6))
	back := make([]myByte, n+2)
	var prior []myByte
	for i := range back {
		back[i] = myByte(sym.Uint8("p"))
	}
	prior = append(prior, back...)
	in := sym.Bytes("in", 0, sym.B(5, 8))
	err := encoding.ByteArrayScanner(back[1:n+1], n).Scan(textSrc(in))
	sym.Assert(sym.And(back[0] == prior[0], back[n+1] == prior[n+1]), "memory outside the array written")
	if len(in) > n {
		sym.Cover("too long")
		sym.Assert(err != nil, "value longer than the array accepted")
		for i := range back {
			sym.Assert(back[i] == prior[i], "failed read changed the destination")
		}
		return
	}
	sym.Cover("fits")
	sym.Assert(err == nil, "value that fits rejected")
	for i := 0; i < n; i++ {
		if i < len(in) {
			sym.Assert(byte(back[i+1]) == in[i], "array holds another byte")
		} else {
			sym.Assert(back[i+1] == 0, "rest of the array is not cleared")
		}
	}
	sym.Observe("arr", len(in), n)
}

// text into a fixed array of n characters
func E04_RuneArray() {
	n := sym.Choose("n", sym.B(3, 4))
	back := make([]myRune, n+2)
	var prior []myRune
	for i := range back {
		back[i] = myRune(sym.Int32("p"))
	}
	prior = append(prior, back...)
	in := sym.Bytes("in", 0, sym.B(4, 5))
	err := encoding.RuneArrayScanner(back[1:n+1], n).Scan(textSrc(in))
	var want []rune
	for s := string(in); len(s) > 0; {
		r, k := utf8.DecodeRuneInString(s)
		want = append(want, r)
		s = s[k:]
	}
	sym.Assert(sym.And(back[0] == prior[0], back[n+1] == prior[n+1]), "memory outside the array written")
	if len(want) > n {
		sym.Cover("too long")
		sym.Assert(err != nil, "value longer than the array accepted")
		for i := range back {
			sym.Assert(back[i] == prior[i], "failed read changed the destination")
		}
		return
	}
	sym.Cover("fits")
	sym.Assert(err == nil, "value that fits rejected")
	for i := 0; i < n; i++ {
		if i < len(want) {
			sym.Assert(rune(back[i+1]) == want[i], "array holds another character")
		} else {
			sym.Assert(back[i+1] == 0, "rest of the array is not cleared")
		}
	}
}

// two reads into the same array: the second decides everything
func E04_Reuse() {
	var d [3]byte
	a, b := sym.Bytes("a", 0, 3), sym.Bytes("b", 0, 3)
	sc := encoding.ByteArrayScanner(d[:], 3)
	sym.Assert(sc.Scan(textSrc(a)) == nil, "value that fits rejected")
	sym.Assert(sc.Scan(b) == nil, "value that fits rejected")
	var e [3]byte
	sym.Assert(encoding.ByteArrayScanner(e[:], 3).Scan(b) == nil, "value that fits rejected")
	sym.Assert(d == e, "content of an earlier read is left in the array")
	sym.Cover("reuse")
}

func E04_Other() {
	var v any
	switch sym.Choose("kind", 3) {
	case 0:
		v = sym.Int64("i")
	case 1:
		v = sym.Bool("b")
	default:
		v = sym.Float64("f")
	}
	var d [2]byte
	var r [2]rune
	d[0], r[0] = 7, 7
	sym.Assert(encoding.ByteArrayScanner(d[:], 2).Scan(v) != nil && d[0] == 7, "unsupported driver value accepted")
	sym.Assert(encoding.RuneArrayScanner(r[:], 2).Scan(v) != nil && r[0] == 7, "unsupported driver value accepted")
	sym.Cover("other")
}
