package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/strfmt"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

const (
	other = iota
	lower
	capital
	digit
	sep
)

func class(c byte) int {
	switch {
	case c >= 'a' && c <= 'z':
		return lower
	case c >= 'A' && c <= 'Z':
		return capital
	case c >= '0' && c <= '9':
		return digit
	case c == '_':
		return sep
	}
	return other
}

// ident is any name a Go field can have: ASCII and the accented letters.
func ident(n string, lo, hi int) string {
	s := sym.String(n, lo, hi)
	accent := func(i int) bool {
		return i >= 0 && i+1 < len(s) && s[i] == 0xC3 && s[i+1] >= 0x80 && s[i+1] <= 0xBF && s[i+1] != 0x97 && s[i+1] != 0xB7
	}
	for i := 0; i < len(s); i++ {
		k := class(s[i])
		sym.Assume(k != other || accent(i) || accent(i-1))
		if i == 0 {
			sym.Assume(k != digit && k != sep)
		}
	}
	return s
}

func low(c byte) byte {
	if class(c) == capital {
		return c + 32
	}
	return c
}

// starts tells whether a new word starts at s[i].
func starts(s string, i int) bool {
	if i == 0 || class(s[i-1]) == sep || class(s[i]) == sep {
		return false
	}
	a, b := class(s[i-1]), class(s[i])
	if a == other || b == other {
		return false
	}
	if (a == digit) != (b == digit) || a == lower && b == capital {
		return true
	}
	// the last capital of a row belongs to the word it begins
	return a == capital && b == capital && i+1 < len(s) && class(s[i+1]) == lower
}

func snake(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if starts(s, i) {
			out = append(out, '_')
		}
		out = append(out, low(s[i]))
	}
	return string(out)
}

// K02_Snake: words in small letters with underscores between them.
func K02_Snake() {
	s := ident("name", 1, sym.B(6, 8))
	sym.Assert(sym.EqStr(strfmt.ToSnakeCase(s), snake(s)), "words-with-underscores")
	sym.Cover("length-" + strconv.Itoa(len(s)))
}

// spells asserts that the result has the letters and digits of the name in order.
func spells(s, got string) {
	var a, b []byte
	for i := 0; i < len(s); i++ {
		if class(s[i]) != sep {
			a = append(a, low(s[i]))
		}
	}
	for i := 0; i < len(got); i++ {
		b = append(b, low(got[i]))
	}
	sym.Assert(sym.EqStr(string(a), string(b)), "same-letters-and-digits")
}

// humps asserts that capitals begin words and nothing else.
func humps(s, got string, first bool) {
	j := 0
	sep0 := true // at the beginning or after an underscore or a digit
	prev := other
	for i := 0; i < len(s); i++ {
		k := class(s[i])
		if k == sep {
			sep0 = true
			prev = sep
			continue
		}
		want := low(s[i])
		begin := sep0
		if j == 0 {
			begin = first
		} else if k == capital && prev != capital {
			begin = true
		}
		if begin && class(want) == lower {
			want -= 32
		}
		sym.Assert(j < len(got) && got[j] == want, "capitals-begin-words")
		j++
		sep0 = k == digit
		prev = k
	}
	sym.Assert(j == len(got), "capitals-begin-words")
}

func K02_Camel() {
	s := ident("name", 1, sym.B(6, 8))
	got := strfmt.ToCamelCase(s)
	spells(s, got)
	humps(s, got, false)
	sym.Cover("length-" + strconv.Itoa(len(s)))
}

func K02_Pascal() {
	s := ident("name", 1, sym.B(6, 8))
	got := strfmt.ToPascalCase(s)
	spells(s, got)
	humps(s, got, true)
	sym.Cover("length-" + strconv.Itoa(len(s)))
}
