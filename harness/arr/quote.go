package main

import (
	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgutil"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// unquote reads a PostgreSQL escape string literal that must span all of s.
func unquote(s string) (string, bool) {
	if len(s) < 3 || s[0] != 'E' || s[1] != '\'' || s[len(s)-1] != '\'' {
		return "", false
	}
	var out []byte
	i, n := 2, len(s)-1
	for i < n {
		switch c := s[i]; c {
		case '\'':
			if i+1 >= n || s[i+1] != '\'' {
				return "", false
			}
			out = append(out, '\'')
			i += 2
		case '\\':
			if i+1 >= n {
				return "", false
			}
			switch e := s[i+1]; e {
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case '\\', '\'':
				out = append(out, e)
			default:
				return "", false
			}
			i += 2
		default:
			out = append(out, c)
			i++
		}
	}
	return string(out), true
}

func P03_Quote() {
	s := sym.String("s", 0, sym.B(5, 7))
	q := pgutil.Quote(s)
	sym.Observe("q", q)
	sym.Cover("quoted")
	got, ok := unquote(q)
	sym.Assert(ok, "quoted text is not one literal")
	sym.Assert(got == s, "quoted text denotes another string")
}

// text that is long, with special characters anywhere
func P03_Long() {
	n := sym.B(12, 20)
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	i, j := sym.Choose("i", n), sym.Choose("j", n)
	b[i] = sym.Uint8("x")
	b[j] = sym.Uint8("y")
	got, ok := unquote(pgutil.Quote(string(b)))
	sym.Cover("quoted")
	sym.Assert(ok, "quoted text is not one literal")
	sym.Assert(got == string(b), "quoted text denotes another string")
}
