package symsql

import (
	"errors"
	"time"
)

// three-valued truth
const (
	no = iota
	yes
	null
)

func tri(b bool) int {
	if b {
		return yes
	}
	return no
}

func text(v any) (string, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case []byte:
		return string(v), true
	}
	return "", false
}

func cmpInt[T int64 | float64 | string](a, b T) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

type kindErr struct{}

// compare orders two values that are not NULL.
func compare(a, b any) int {
	switch a := a.(type) {
	case int64:
		switch b := b.(type) {
		case int64:
			return cmpInt(a, b)
		case float64:
			return cmpInt(float64(a), b)
		case bool:
			if b {
				return cmpInt(a, 1)
			}
			return cmpInt(a, 0)
		}
	case float64:
		switch b := b.(type) {
		case float64:
			return cmpInt(a, b)
		case int64:
			return cmpInt(a, float64(b))
		}
	case bool:
		switch b := b.(type) {
		case bool:
			if a == b {
				return 0
			}
			if b {
				return -1
			}
			return 1
		case int64:
			if a {
				return cmpInt(1, b)
			}
			return cmpInt(0, b)
		}
	case time.Time:
		if b, ok := b.(time.Time); ok {
			if a.Equal(b) {
				return 0
			}
			if a.Before(b) {
				return -1
			}
			return 1
		}
	case string, []byte:
		x, _ := text(a)
		if y, ok := text(b); ok {
			return cmpInt(x, y)
		}
	case Encoded:
		if b, ok := b.(Encoded); ok && a.Fn == b.Fn {
			return compare(a.V, b.V)
		}
	}
	panic(fail{errors.New("operands of different types")})
}

func equal(a, b any) bool {
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	return compare(a, b) == 0
}

func like(s, p string) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0] == '%' {
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	}
	if len(s) == 0 {
		return false
	}
	if p[0] == '\\' && len(p) > 1 {
		return s[0] == p[1] && like(s[1:], p[2:])
	}
	return (p[0] == '_' || s[0] == p[0]) && like(s[1:], p[1:])
}

type env struct {
	t    *Table
	row  []any
	new  []any
	args []any
}

type tuple []any

func (e *env) val(n *node) any {
	switch n.op {
	case "arg":
		return e.args[n.arg]
	case "lit":
		return n.lit
	case "col":
		return e.row[e.t.col(n.name)]
	case "new":
		if e.new == nil {
			panic(fail{syntax("no inserted row here")})
		}
		return e.new[e.t.col(n.name)]
	case "tuple":
		out := make(tuple, len(n.kids))
		for i, k := range n.kids {
			out[i] = e.val(k)
		}
		return out
	case "fn":
		vals := make([]any, len(n.kids))
		for i, k := range n.kids {
			vals[i] = e.val(k)
		}
		return call(n.name, vals)
	}
	switch e.truth(n) {
	case yes:
		return true
	case no:
		return false
	}
	return nil
}

// Encoded is what a function like ST_GeomFromText makes of its operand.
type Encoded struct {
	Fn string
	V  any
}

// call applies a conversion function: F2(F1(x)) is x for the inverse pairs.
func call(fn string, vals []any) any {
	if len(vals) != 1 {
		panic(fail{errors.New("unknown function " + fn)})
	}
	switch fn {
	case "ENC":
		if vals[0] == nil {
			return nil
		}
		return Encoded{fn, vals[0]}
	case "DEC":
		if vals[0] == nil {
			return nil
		}
		if x, ok := vals[0].(Encoded); ok {
			return x.V
		}
	}
	panic(fail{errors.New("function " + fn + " cannot take this value")})
}

func (e *env) truth(n *node) int {
	switch n.op {
	case "and":
		l := e.truth(n.kids[0])
		if l == no {
			return no
		}
		r := e.truth(n.kids[1])
		if r == no {
			return no
		}
		if l == null || r == null {
			return null
		}
		return yes
	case "or":
		l := e.truth(n.kids[0])
		if l == yes {
			return yes
		}
		r := e.truth(n.kids[1])
		if r == yes {
			return yes
		}
		if l == null || r == null {
			return null
		}
		return no
	case "not":
		return invert(e.truth(n.kids[0]), true)
	case "isnull":
		v := e.val(n.kids[0])
		return tri((v == nil) != n.not)
	case "=", "<>", "<", ">", "<=", ">=":
		return relate(n.op, e.val(n.kids[0]), e.val(n.kids[1]))
	case "in":
		l := e.val(n.kids[0])
		r := no
		for _, k := range n.kids[1:] {
			switch relate("=", l, e.val(k)) {
			case yes:
				return invert(yes, n.not)
			case null:
				r = null
			}
		}
		return invert(r, n.not)
	case "like":
		l, r := e.val(n.kids[0]), e.val(n.kids[1])
		if l == nil || r == nil {
			return null
		}
		ls, ok1 := text(l)
		rs, ok2 := text(r)
		if !ok1 || !ok2 {
			panic(fail{errors.New("LIKE needs text")})
		}
		return invert(tri(like(ls, rs)), n.not)
	case "between":
		v := e.val(n.kids[0])
		l := relate(">=", v, e.val(n.kids[1]))
		if l == no {
			return invert(no, n.not)
		}
		r := relate("<=", v, e.val(n.kids[2]))
		if r == no {
			return invert(no, n.not)
		}
		if l == null || r == null {
			return null
		}
		return invert(yes, n.not)
	}
	switch v := e.val(n).(type) {
	case nil:
		return null
	case bool:
		return tri(v)
	case int64:
		if e.t.s.Dialect != Postgres {
			return tri(v != 0)
		}
	}
	panic(fail{errors.New("condition is not a truth value")})
}

func invert(t int, not bool) int {
	if !not || t == null {
		return t
	}
	return yes - t
}

func relate(op string, a, b any) int {
	ta, aok := a.(tuple)
	tb, bok := b.(tuple)
	if aok != bok || len(ta) != len(tb) {
		panic(fail{errors.New("operands should contain the same number of columns")})
	}
	if !aok {
		if a == nil || b == nil {
			return null
		}
		switch op {
		case "=":
			return tri(equal(a, b))
		case "<>":
			return tri(!equal(a, b))
		}
		return tri(holds(op, compare(a, b)))
	}
	for i := range ta {
		if ta[i] == nil || tb[i] == nil {
			return null
		}
		if c := compare(ta[i], tb[i]); c != 0 {
			return tri(holds(op, c))
		}
	}
	return tri(holds(op, 0))
}

func holds(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	}
	return c >= 0
}
