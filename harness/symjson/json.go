// Package symjson stands in for encoding/json in symbolic runs, which cannot follow its reflection. It reads and
// writes the same texts; what a type has to do with them, its users tell in Into and From.
package symjson

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"strconv"
)

// Node is a JSON value.
type Node struct {
	Kind  byte // n, t, f, #, ", [, {
	Text  string
	Elems []Node
	Keys  []string
	Raw   []byte
}

// Into sets what v points to from a value as json.Unmarshal does, without resetting it first.
var Into func(v any, n Node) error

// From writes a value.
var From func(v any) ([]byte, error)

var errSyntax = errors.New("invalid character")
var errShort = errors.New("unexpected end of JSON input")

// ErrType is returned for a value that does not fit its destination.
var ErrType = errors.New("cannot unmarshal")

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func skip(b []byte) []byte {
	for len(b) > 0 && space(b[0]) {
		b = b[1:]
	}
	return b
}

func word(b []byte, w string, k byte) (Node, []byte, error) {
	for i := 0; i < len(w); i++ {
		if i >= len(b) {
			return Node{}, nil, errShort
		}
		if b[i] != w[i] {
			return Node{}, nil, errSyntax
		}
	}
	return Node{Kind: k, Text: w}, b[len(w):], nil
}

func parse(b []byte) (Node, []byte, error) {
	b = skip(b)
	if len(b) == 0 {
		return Node{}, nil, errShort
	}
	start := b
	n, rest, err := parseValue(b)
	if err == nil {
		n.Raw = start[:len(start)-len(rest)]
	}
	return n, rest, err
}

func parseValue(b []byte) (Node, []byte, error) {
	switch c := b[0]; {
	case c == 'n':
		return word(b, "null", 'n')
	case c == 't':
		return word(b, "true", 't')
	case c == 'f':
		return word(b, "false", 'f')
	case c == '"':
		s, rest, err := str(b)
		return Node{Kind: '"', Text: s}, rest, err
	case c == '-' || c >= '0' && c <= '9':
		return number(b)
	case c == '[':
		n := Node{Kind: '['}
		b = skip(b[1:])
		if len(b) > 0 && b[0] == ']' {
			return n, b[1:], nil
		}
		for {
			e, rest, err := parse(b)
			if err != nil {
				return n, nil, err
			}
			n.Elems = append(n.Elems, e)
			rest = skip(rest)
			if len(rest) == 0 {
				return n, nil, errShort
			}
			if rest[0] == ']' {
				return n, rest[1:], nil
			}
			if rest[0] != ',' {
				return n, nil, errSyntax
			}
			b = rest[1:]
		}
	case c == '{':
		n := Node{Kind: '{'}
		b = skip(b[1:])
		if len(b) > 0 && b[0] == '}' {
			return n, b[1:], nil
		}
		for {
			b = skip(b)
			if len(b) == 0 {
				return n, nil, errShort
			}
			if b[0] != '"' {
				return n, nil, errSyntax
			}
			k, rest, err := str(b)
			if err != nil {
				return n, nil, err
			}
			rest = skip(rest)
			if len(rest) == 0 {
				return n, nil, errShort
			}
			if rest[0] != ':' {
				return n, nil, errSyntax
			}
			e, rest, err := parse(rest[1:])
			if err != nil {
				return n, nil, err
			}
			n.Keys, n.Elems = append(n.Keys, k), append(n.Elems, e)
			rest = skip(rest)
			if len(rest) == 0 {
				return n, nil, errShort
			}
			if rest[0] == '}' {
				return n, rest[1:], nil
			}
			if rest[0] != ',' {
				return n, nil, errSyntax
			}
			b = rest[1:]
		}
	}
	return Node{}, nil, errSyntax
}

// str reads a text; escapes and bytes beyond ASCII are not supported.
func str(b []byte) (string, []byte, error) {
	for i := 1; i < len(b); i++ {
		switch c := b[i]; {
		case c == '"':
			return string(b[1:i]), b[i+1:], nil
		case c < ' ':
			return "", nil, errSyntax
		case c == '\\' || c >= 0x80:
			panic("symjson: text not supported")
		}
	}
	return "", nil, errShort
}

func digits(b []byte, i int) int {
	for i < len(b) && b[i] >= '0' && b[i] <= '9' {
		i++
	}
	return i
}

func number(b []byte) (Node, []byte, error) {
	i := 0
	if b[0] == '-' {
		i = 1
	}
	if i == len(b) {
		return Node{}, nil, errShort
	}
	switch c := b[i]; {
	case c == '0':
		i++
	case c >= '1' && c <= '9':
		i = digits(b, i)
	default:
		return Node{}, nil, errSyntax
	}
	if i < len(b) && (b[i] == '.' || b[i] == 'e' || b[i] == 'E') {
		panic("symjson: fraction not supported")
	}
	return Node{Kind: '#', Text: string(b[:i])}, b[i:], nil
}

// Int sets a number.
func Int[T ~int8 | ~int16 | ~int32 | ~int64 | ~int](v *T, n Node) error {
	switch n.Kind {
	case 'n':
		return nil
	case '#':
		i, err := strconv.ParseInt(n.Text, 10, 64)
		if err != nil || int64(T(i)) != i {
			return ErrType
		}
		*v = T(i)
		return nil
	}
	return ErrType
}

// Str sets a text.
func Str[T ~string](v *T, n Node) error {
	switch n.Kind {
	case 'n':
		return nil
	case '"':
		*v = T(n.Text)
		return nil
	}
	return ErrType
}

// Ptr sets what a pointer points to, which null makes nil.
func Ptr[T any](v **T, n Node, into func(*T, Node) error) error {
	if n.Kind == 'n' {
		*v = nil
		return nil
	}
	if *v == nil {
		*v = new(T)
	}
	return into(*v, n)
}

// Slice sets a list; elements there are kept as far as the list goes, as encoding/json does.
func Slice[T any](v *[]T, n Node, into func(*T, Node) error) error {
	switch n.Kind {
	case 'n':
		*v = nil
		return nil
	case '[':
		var first error
		s := *v
		for i, e := range n.Elems {
			if i < len(s) {
			} else if i < cap(s) {
				s = s[:i+1]
			} else {
				var zero T
				s = append(s, zero)
			}
			if err := into(&s[i], e); err != nil && first == nil {
				first = err
			}
		}
		s = s[:len(n.Elems)]
		if len(n.Elems) == 0 {
			s = []T{}
		}
		*v = s
		return first
	}
	return ErrType
}

// Map adds to a map.
func Map[T any](v *map[string]T, n Node, into func(*T, Node) error) error {
	switch n.Kind {
	case 'n':
		*v = nil
		return nil
	case '{':
		if *v == nil {
			*v = map[string]T{}
		}
		var first error
		for i, k := range n.Keys {
			var x T
			if err := into(&x, n.Elems[i]); err != nil && first == nil {
				first = err
			}
			(*v)[k] = x
		}
		return first
	}
	return ErrType
}

type state struct {
	r    io.Reader
	b    []byte
	read bool
}

var states = map[*json.Decoder]*state{}

// NewDecoder and what follows stand in for the functions of encoding/json.
func NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	states[d] = &state{r: r}
	return d
}

func (s *state) fill() error {
	if s.read {
		return nil
	}
	s.read = true
	switch r := s.r.(type) {
	case *bytes.Buffer:
		s.b = append([]byte{}, r.Bytes()...)
	default:
		b, err := io.ReadAll(r)
		if err != nil {
			return err
		}
		s.b = b
	}
	return nil
}

func Decode(d *json.Decoder, v any) error {
	s := states[d]
	if err := s.fill(); err != nil {
		return err
	}
	if len(skip(s.b)) == 0 {
		return io.EOF
	}
	n, rest, err := parse(s.b)
	if err == errShort {
		return io.ErrUnexpectedEOF
	} else if err != nil {
		return err
	}
	if n.Kind == '#' && len(rest) > 0 && !space(rest[0]) {
		return errSyntax
	}
	s.b = rest
	return assign(v, n)
}

func More(d *json.Decoder) bool {
	s := states[d]
	if s.fill() != nil {
		return false
	}
	b := skip(s.b)
	return len(b) > 0 && b[0] != ']' && b[0] != '}'
}

func Buffered(d *json.Decoder) io.Reader {
	s := states[d]
	if !s.read {
		return bytes.NewReader(nil)
	}
	return bytes.NewReader(s.b)
}

func Token(d *json.Decoder) (json.Token, error) {
	s := states[d]
	if err := s.fill(); err != nil {
		return nil, err
	}
	b := skip(s.b)
	if len(b) == 0 {
		return nil, io.EOF
	}
	return nil, errSyntax
}

func assign(v any, n Node) error {
	if u, ok := v.(json.Unmarshaler); ok {
		return u.UnmarshalJSON(append([]byte{}, n.Raw...))
	}
	return Into(v, n)
}

func whole(b []byte) (Node, error) {
	n, rest, err := parse(b)
	if err != nil {
		return n, err
	}
	if len(skip(rest)) > 0 {
		return n, errSyntax
	}
	return n, nil
}

func Unmarshal(b []byte, v any) error {
	n, err := whole(b)
	if err != nil {
		return err
	}
	return assign(v, n)
}

func Valid(b []byte) bool {
	_, err := whole(b)
	return err == nil
}

func Marshal(v any) ([]byte, error) {
	if m, ok := v.(json.Marshaler); ok {
		return m.MarshalJSON()
	}
	return From(v)
}

var writers = map[*json.Encoder]io.Writer{}

func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	writers[e] = w
	return e
}

func Encode(e *json.Encoder, v any) error {
	b, err := Marshal(v)
	if err != nil {
		return err
	}
	_, err = writers[e].Write(append(b, '\n'))
	return err
}

func SetEscapeHTML(*json.Encoder, bool) {}
