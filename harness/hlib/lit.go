// Package hlib holds reference implementations used as oracles by the harnesses.
package hlib

// Elem is one element of a parsed list literal.
type Elem struct {
	S      string
	Quoted bool
	Null   bool
}

// PgArray parses a one-dimensional PostgreSQL array literal in the form emitted by the
// server; ok is false for anything else.
func PgArray(s string) (out []Elem, ok bool) {
	n := len(s)
	if n < 2 || s[0] != '{' || s[n-1] != '}' {
		return nil, false
	}
	if n == 2 {
		return nil, true
	}
	i := 1
	for {
		if i >= n-1 {
			return nil, false
		}
		if s[i] == '"' {
			var b []byte
			i++
			closed := false
			for i < n-1 {
				c := s[i]
				if c == '"' {
					closed = true
					i++
					break
				}
				if c == '\\' {
					i++
					if i >= n-1 {
						return nil, false
					}
					c = s[i]
				}
				b = append(b, c)
				i++
			}
			if !closed {
				return nil, false
			}
			out = append(out, Elem{S: string(b), Quoted: true})
		} else {
			st := i
			for i < n-1 && s[i] != ',' {
				switch s[i] {
				case '{', '}', '"', '\\', ' ', '\t', '\n', '\r', '\v', '\f':
					return nil, false
				}
				i++
			}
			if i == st {
				return nil, false
			}
			t := s[st:i]
			out = append(out, Elem{S: t, Null: t == "NULL"})
		}
		if i == n-1 {
			return out, true
		}
		if s[i] != ',' {
			return nil, false
		}
		i++
	}
}

func ws(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// JSONArray parses a flat JSON array of strings, numbers, booleans and nulls (RFC 8259
// without UTF-8 validation); ok is false for anything else.
func JSONArray(s string) (out []Elem, ok bool) {
	i, n := 0, len(s)
	skip := func() {
		for i < n && ws(s[i]) {
			i++
		}
	}
	skip()
	if i >= n || s[i] != '[' {
		return nil, false
	}
	i++
	skip()
	if i < n && s[i] == ']' {
		i++
		skip()
		return nil, i == n
	}
	for {
		skip()
		if i >= n {
			return nil, false
		}
		if s[i] == '"' {
			t, j, good := jsonString(s, i+1)
			if !good {
				return nil, false
			}
			out = append(out, Elem{S: t, Quoted: true})
			i = j
		} else {
			st := i
			for i < n && s[i] != ',' && s[i] != ']' && !ws(s[i]) {
				i++
			}
			t := s[st:i]
			switch {
			case t == "null":
				out = append(out, Elem{Null: true})
			case t == "true" || t == "false" || jsonNumber(t):
				out = append(out, Elem{S: t})
			default:
				return nil, false
			}
		}
		skip()
		if i >= n {
			return nil, false
		}
		if s[i] == ']' {
			i++
			skip()
			return out, i == n
		}
		if s[i] != ',' {
			return nil, false
		}
		i++
	}
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func hex4(s string, i int) int {
	if i+4 > len(s) {
		return -1
	}
	r := 0
	for k := 0; k < 4; k++ {
		d := hexv(s[i+k])
		if d < 0 {
			return -1
		}
		r = r<<4 | d
	}
	return r
}

// jsonString reads the rest of a JSON string whose opening quote is before i.
func jsonString(s string, i int) (string, int, bool) {
	var b []byte
	for i < len(s) {
		c := s[i]
		i++
		if c == '"' {
			return string(b), i, true
		}
		if c < 0x20 {
			return "", 0, false
		}
		if c != '\\' {
			b = append(b, c)
			continue
		}
		if i >= len(s) {
			return "", 0, false
		}
		e := s[i]
		i++
		switch e {
		case '"', '\\', '/':
			b = append(b, e)
		case 'b':
			b = append(b, 8)
		case 'f':
			b = append(b, 12)
		case 'n':
			b = append(b, 10)
		case 'r':
			b = append(b, 13)
		case 't':
			b = append(b, 9)
		case 'u':
			r := hex4(s, i)
			if r < 0 {
				return "", 0, false
			}
			i += 4
			if r >= 0xd800 && r < 0xe000 {
				r2 := -1
				if r < 0xdc00 && i+6 <= len(s) && s[i] == '\\' && s[i+1] == 'u' {
					r2 = hex4(s, i+2)
				}
				if r2 >= 0xdc00 && r2 < 0xe000 {
					i += 6
					r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
				} else {
					r = 0xfffd
				}
			}
			b = append(b, string(rune(r))...)
		default:
			return "", 0, false
		}
	}
	return "", 0, false
}

func jsonNumber(t string) bool {
	i := 0
	if i < len(t) && t[i] == '-' {
		i++
	}
	st := i
	for i < len(t) && t[i] >= '0' && t[i] <= '9' {
		i++
	}
	if i == st || (t[st] == '0' && i > st+1) {
		return false
	}
	if i < len(t) && t[i] == '.' {
		i++
		st = i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		if i == st {
			return false
		}
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '+' || t[i] == '-') {
			i++
		}
		st = i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		if i == st {
			return false
		}
	}
	return i == len(t)
}
