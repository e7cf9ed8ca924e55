package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

var dItem = desc[model.Item]{
	table: "stock.item", cols: []symsql.Col{c("id"), c("cat"), c("qty"), c("opt"), c("is_flag")}, keys: []string{"id"}, auto: -1,
	row: func(m model.Item) []any {
		var opt any
		if m.Opt != nil {
			opt = *m.Opt
		}
		return []any{m.ID, m.Cat, int64(m.Qty), opt, m.Flag}
	},
	arb: func(n string) model.Item {
		m := model.Item{ID: sym.Int64(n + "id"), Cat: text(n+"cat", 1, 1), Qty: sym.Int32(n + "qty"), Flag: sym.Bool(n + "flag")}
		if sym.Choose(n+"opt?", 2) == 1 {
			v := sym.Int64(n + "opt")
			m.Opt = &v
		}
		return m
	},
}

// pred says whether a row is selected: no, unknown or yes.
type pred func(r []any) int

const (
	no = iota
	unknown
	yes
)

func tri(b bool) int {
	if b {
		return yes
	}
	return no
}

func pAll(ps ...pred) pred {
	return func(r []any) int {
		v := yes
		for _, p := range ps {
			v = min(v, p(r))
		}
		return v
	}
}

func pAny(ps ...pred) pred {
	return func(r []any) int {
		v := no
		for _, p := range ps {
			v = max(v, p(r))
		}
		return v
	}
}

func pNot(p pred) pred { return func(r []any) int { return yes - p(r) } }

// on is a predicate about column i that is unknown for NULL.
func on(i int, f func(v any) bool) pred {
	return func(r []any) int {
		if r[i] == nil {
			return unknown
		}
		return tri(sym.FixBool(f(r[i])))
	}
}

// item gives the columns of an item.
var item model.Item

// clause is a condition with its meaning.
type clause struct {
	w sequel.WhereClause
	p pred
}

func optArg(n string) *int64 {
	v := sym.Int64(n)
	return &v
}

// atom makes one of the conditions.
func atom(n string, k int) clause {
	switch k {
	case 0:
		x := text(n+"cat", 0, 1)
		return clause{db.Equal(item.ColumnCat(), x), on(1, func(v any) bool { return sym.EqStr(v.(string), x) })}
	case 1:
		x := sym.Int32(n + "qty")
		return clause{db.NotEqual(item.ColumnQty(), x), on(2, func(v any) bool { return v.(int64) != int64(x) })}
	case 2:
		x := optArg(n + "opt")
		return clause{db.GreaterThan(item.ColumnOpt(), x), on(3, func(v any) bool { return v.(int64) > *x })}
	case 3:
		x := sym.Int64(n + "id")
		return clause{db.LessThanOrEqual(item.ColumnID(), x), on(0, func(v any) bool { return v.(int64) <= x })}
	case 4:
		return clause{db.IsNull(item.ColumnOpt()), func(r []any) int { return tri(r[3] == nil) }}
	case 5:
		x := sym.Bool(n + "flag")
		return clause{db.Equal(item.ColumnFlag(), x), on(4, func(v any) bool { return v.(bool) == x })}
	case 6:
		lo, hi := sym.Int32(n+"lo"), sym.Int32(n+"hi")
		return clause{db.Between(item.ColumnQty(), lo, hi), on(2, func(v any) bool {
			return sym.And(v.(int64) >= int64(lo), v.(int64) <= int64(hi))
		})}
	case 7:
		xs := make([]int32, sym.Choose(n+"in", sym.B(3, 4)))
		for i := range xs {
			xs[i] = sym.Int32(n + "in" + strconv.Itoa(i))
		}
		return clause{db.In(item.ColumnQty(), xs), inList(2, xs)}
	case 8:
		xs := make([]int64, sym.Choose(n+"in", sym.B(3, 4)))
		for i := range xs {
			xs[i] = sym.Int64(n + "in" + strconv.Itoa(i))
		}
		return clause{db.NotIn(item.ColumnID(), xs), pNot(inList(0, xs))}
	case 9:
		return clause{db.IsNotNull(item.ColumnOpt()), func(r []any) int { return tri(r[3] != nil) }}
	case 10:
		x := sym.Int32(n + "qty")
		return clause{db.GreaterThanOrEqual(item.ColumnQty(), x), on(2, func(v any) bool { return v.(int64) >= int64(x) })}
	case 11:
		x := optArg(n + "opt")
		return clause{db.LessThan(item.ColumnOpt(), x), on(3, func(v any) bool { return v.(int64) < *x })}
	case 12:
		lo, hi := sym.Int64(n+"lo"), sym.Int64(n+"hi")
		return clause{db.NotBetween(item.ColumnID(), lo, hi), on(0, func(v any) bool {
			return sym.Or(v.(int64) < lo, v.(int64) > hi)
		})}
	case 13:
		x := string([]byte{byte(sym.Range(n+"like", 'a', 'c'))})
		return clause{db.Like(item.ColumnCat(), x+"%"), on(1, func(v any) bool { s := v.(string); return len(s) > 0 && s[0] == x[0] })}
	case 14:
		x := string([]byte{byte(sym.Range(n+"like", 'a', 'c'))})
		return clause{db.NotLike(item.ColumnCat(), x), on(1, func(v any) bool { return !sym.EqStr(v.(string), x) })}
	case 15:
		x := sym.Int32(n + "qty")
		return clause{db.Equal(item.ColumnQty(), x), on(2, func(v any) bool { return v.(int64) == int64(x) })}
	case 16:
		x := optArg(n + "opt")
		return clause{db.NotEqual(item.ColumnOpt(), x), on(3, func(v any) bool { return v.(int64) != *x })}
	case 17:
		x := text(n+"cat", 1, 1)
		return clause{db.GreaterThan(item.ColumnCat(), x), on(1, func(v any) bool { return v.(string) > x })}
	case 18:
		x := sym.Int64(n + "id")
		return clause{db.LessThan(item.ColumnID(), x), on(0, func(v any) bool { return v.(int64) < x })}
	case 19:
		x := text(n+"cat", 1, 1)
		return clause{db.GreaterThanOrEqual(item.ColumnCat(), x), on(1, func(v any) bool { return v.(string) >= x })}
	case 20:
		x := optArg(n + "opt")
		return clause{db.LessThanOrEqual(item.ColumnOpt(), x), on(3, func(v any) bool { return v.(int64) <= *x })}
	case 21:
		lo, hi := optArg(n+"lo"), optArg(n+"hi")
		return clause{db.NotBetween(item.ColumnOpt(), lo, hi), on(3, func(v any) bool {
			return sym.Or(v.(int64) < *lo, v.(int64) > *hi)
		})}
	case 22:
		xs := []*int64{optArg(n + "in0"), optArg(n + "in1")}
		return clause{db.NotIn(item.ColumnOpt(), xs), on(3, func(v any) bool {
			return sym.And(v.(int64) != *xs[0], v.(int64) != *xs[1])
		})}
	case 23:
		xs := []string{text(n+"in0", 1, 1), text(n+"in1", 0, 1)}
		return clause{db.In(item.ColumnCat(), xs), on(1, func(v any) bool {
			return sym.Or(sym.EqStr(v.(string), xs[0]), sym.EqStr(v.(string), xs[1]))
		})}
	}
	panic("no such condition")
}

const atoms = 24

func inList[T int32 | int64](col int, xs []T) pred {
	return func(r []any) int {
		if r[col] == nil {
			return unknown
		}
		hit := false
		for _, x := range xs {
			hit = sym.Or(hit, r[col].(int64) == int64(x))
		}
		return tri(sym.FixBool(hit))
	}
}

func selectWhere(w sequel.WhereClause) func(model.Item) db.SelectStmt {
	return func(model.Item) db.SelectStmt { return db.SelectStmt{Where: w} }
}

// whereOf asserts that the condition selects the rows it means.
func whereOf(cl clause, n int) {
	s := symsql.New(dialect)
	t := dItem.in(s)
	dItem.fill(t, n)
	var want [][]any
	for _, r := range t.Rows {
		if cl.p(r) == yes {
			want = append(want, r)
			sym.Cover("selected")
		} else {
			sym.Cover("left-out")
		}
	}
	got, err := db.QueryStmt[model.Item](ctx, s.DB(), selectWhere(cl.w))
	valid(s)
	sym.Assert(err == nil, "query-succeeds")
	sym.Assert(eqRows(itemRows(got), want), "rows-meeting-the-condition")
	sym.Assert(s.Open == 0, "result-set-closed")
}

func itemRows(ms []model.Item) [][]any {
	var out [][]any
	for _, m := range ms {
		out = append(out, dItem.row(m))
	}
	return out
}

// Q01 is about single conditions.
func Q01_Operators() { whereOf(atom("", sym.Choose("op", atoms)), 1) }

// pickAtom makes one of a few conditions with different shapes.
func pickAtom(n string) clause { return atom(n, []int{0, 2, 4, 6, 7, 8}[sym.Choose(n+"op", 6)]) }

func Q01_And() {
	a, b := pickAtom("a."), pickAtom("b.")
	whereOf(clause{db.And(a.w, b.w), pAll(a.p, b.p)}, 1)
}

func Q01_Or() {
	a, b := pickAtom("a."), pickAtom("b.")
	whereOf(clause{db.Or(a.w, b.w), pAny(a.p, b.p)}, 1)
}

func Q01_Nested() {
	a, b, c := atom("a.", 15), atom("b.", sym.Choose("op", 8)), atom("c.", 5)
	switch sym.Choose("shape", 8) {
	case 0:
		whereOf(clause{db.And(a.w, db.Or(b.w, c.w)), pAll(a.p, pAny(b.p, c.p))}, 1)
	case 1:
		whereOf(clause{db.And(db.Or(a.w, b.w), c.w), pAll(pAny(a.p, b.p), c.p)}, 1)
	case 2:
		whereOf(clause{db.Or(db.And(a.w, b.w), c.w), pAny(pAll(a.p, b.p), c.p)}, 1)
	case 3:
		whereOf(clause{db.Or(a.w, db.And(b.w, c.w)), pAny(a.p, pAll(b.p, c.p))}, 1)
	case 4:
		whereOf(clause{db.And(a.w, b.w, c.w), pAll(a.p, b.p, c.p)}, 1)
	case 5:
		whereOf(clause{db.Or(a.w, b.w, c.w), pAny(a.p, b.p, c.p)}, 1)
	case 6:
		whereOf(clause{db.And(db.Or(b.w)), b.p}, 1)
	case 7:
		whereOf(clause{db.And(db.Or(a.w, b.w), db.Or(b.w, c.w)), pAll(pAny(a.p, b.p), pAny(b.p, c.p))}, 1)
	}
}

// order is an ORDER BY list with its meaning.
type order struct {
	by   []sequel.OrderByClause
	less func(a, b []any) bool
}

func cmp(a, b any) int {
	lt, gt := false, false
	switch x := a.(type) {
	case int64:
		lt, gt = x < b.(int64), x > b.(int64)
	case string:
		lt, gt = x < b.(string), x > b.(string)
	}
	if sym.FixBool(lt) {
		return -1
	}
	if sym.FixBool(gt) {
		return 1
	}
	return 0
}

func byCols(cols []int, desc []bool) func(a, b []any) bool {
	return func(a, b []any) bool {
		for i, c := range cols {
			if d := cmp(a[c], b[c]); d != 0 {
				return (d < 0) != desc[i]
			}
		}
		return false
	}
}

func orders(k int) order {
	switch k {
	case 0:
		return order{nil, func(a, b []any) bool { return false }}
	case 1:
		return order{[]sequel.OrderByClause{db.Asc(item.ColumnQty())}, byCols([]int{2}, []bool{false})}
	case 2:
		return order{[]sequel.OrderByClause{db.Desc(item.ColumnCat())}, byCols([]int{1}, []bool{true})}
	case 3:
		return order{[]sequel.OrderByClause{db.Desc(item.ColumnQty()), db.Asc(item.ColumnID())}, byCols([]int{2, 0}, []bool{true, false})}
	case 4:
		return order{[]sequel.OrderByClause{db.Asc(item.ColumnCat()), db.Desc(item.ColumnID())}, byCols([]int{1, 0}, []bool{false, true})}
	}
	panic("no such order")
}

const orderings = 5

// someOrder chooses none, a single and a mixed order.
func someOrder() order { return orders([]int{0, 1, 3, 4}[sym.Choose("order", 4)]) }

func sorted(rows [][]any, o order) [][]any {
	rows = clone(rows)
	for i := 1; i < len(rows); i++ {
		for j := i; j > 0 && o.less(rows[j], rows[j-1]); j-- {
			rows[j], rows[j-1] = rows[j-1], rows[j]
		}
	}
	return rows
}

// few fills the table with simpler rows.
func few(t *symsql.Table, n int) {
	for i := 0; i < n; i++ {
		p := "row" + strconv.Itoa(i) + "."
		r := []any{int64(10*i + 5), text(p+"cat", 1, 1), int64(sym.Int32(p + "qty")), nil, i%2 == 0}
		if i > 0 {
			r[0] = t.Rows[i-1][0].(int64) + int64(sym.Range(p+"gap", 1, 1000))
			r[3] = sym.Int64(p + "opt")
		} else {
			r[0] = int64(sym.Int32(p + "id"))
		}
		t.Rows = append(t.Rows, r)
	}
}

// wheres are the conditions queries are made with.
func wheres(k int) clause {
	switch k {
	case 0:
		return clause{nil, func([]any) int { return yes }}
	case 1:
		return atom("", 10)
	case 2:
		a, b := atom("a.", 10), atom("b.", 9)
		return clause{db.Or(a.w, b.w), pAny(a.p, b.p)}
	}
	panic("no such condition")
}

func selected(rows [][]any, p pred) [][]any {
	var out [][]any
	for _, r := range rows {
		if p(r) == yes {
			out = append(out, r)
		}
	}
	return out
}

func slice(rows [][]any, offset uint64, limit uint16) [][]any {
	if offset > uint64(len(rows)) {
		offset = uint64(len(rows))
	}
	rows = rows[offset:]
	if limit > 0 && int(limit) < len(rows) {
		rows = rows[:limit]
	}
	return rows
}

// queryOf runs a query and asserts what it returns.
func queryOf(n int, cl clause, o order, offset uint64, limit uint16, more func(*symsql.Server, *symsql.Table, *db.SelectStmt)) {
	s := symsql.New(dialect)
	t := dItem.in(s)
	few(t, n)
	stmt := db.SelectStmt{Where: cl.w, OrderBy: o.by, Offset: offset, Limit: limit}
	if more != nil {
		more(s, t, &stmt)
	}
	want := slice(sorted(selected(t.Rows, cl.p), o), offset, limit)
	got, err := db.QueryStmt[model.Item](ctx, s.DB(), func(model.Item) db.SelectStmt { return stmt })
	sym.Assert(s.Open == 0, "result-set-closed")
	if s.FailAt == 0 || s.RowErr >= 0 && s.RowErr <= len(want) {
		sym.Assert(injected(err), "error-surfaced")
		sym.Assert(got == nil, "no-result-with-an-error")
		s.FailAt, s.RowErr = -1, -1
		got, err = db.QueryStmt[model.Item](ctx, s.DB(), func(model.Item) db.SelectStmt { return stmt })
	}
	valid(s)
	sym.Assert(err == nil, "query-succeeds")
	sym.Assert(eqRows(itemRows(got), want), "rows-asked-for-in-order")
	sym.Cover("rows-" + strconv.Itoa(len(want)))
}

func C05_Order() { queryOf(sym.B(3, 4), wheres(0), orders(sym.Choose("order", orderings)), 0, 0, nil) }

func C05_WhereOrder() {
	queryOf(2, wheres(1+sym.Choose("where", 2)), orders(sym.Choose("order", 2)), 0, 0, nil)
}

func C05_Limit() {
	queryOf(3, wheres(sym.Choose("where", 2)), orders(sym.Choose("order", 2)), uint64(sym.Choose("offset", 4)), uint16(sym.Choose("limit", 4)), nil)
}

func C05_FarOffset() {
	far := []uint64{255, 256, 65535, 65536, 65537, 1<<32 + 1, 1<<63 - 1}
	queryOf(2, wheres(0), orders(1), far[sym.Choose("offset", len(far))], uint16(sym.Choose("limit", 2)), nil)
}

func C05_BigLimit() {
	big := []uint16{255, 256, 257, 32767, 32768, 65535}
	queryOf(3, wheres(0), orders(1), uint64(sym.Choose("offset", 2)), big[sym.Choose("limit", len(big))], nil)
}

func C05_Faults() {
	queryOf(2, wheres(sym.Choose("where", 2)), orders(0), 0, uint16(sym.Choose("limit", 2)), func(s *symsql.Server, t *symsql.Table, q *db.SelectStmt) {
		if f := sym.Choose("fault", 3); f == 0 {
			s.FailAt = 0
		} else {
			s.RowErr = f - 1
		}
	})
}

func C05_Parts() {
	queryOf(2, wheres(sym.Choose("where", 3)), orders(sym.Choose("order", 4)), 0, uint16(sym.Choose("limit", 2)), func(s *symsql.Server, t *symsql.Table, q *db.SelectStmt) {
		s.Bytes = sym.Choose("bytes", 2) == 1
		if sym.Choose("select", 2) == 1 {
			q.Select = append([]string(nil), model.Item{}.Columns()...)
		}
		if sym.Choose("group", 2) == 1 {
			q.GroupBy = []string{model.Item{}.ColumnID().ColumnName()}
		}
		if sym.Choose("from", 2) == 1 {
			q.FromTable = model.Item{}.TableName()
		}
	})
}

// C05_One finds the first row in the order.
func C05_One() {
	s := symsql.New(dialect)
	t := dItem.in(s)
	few(t, sym.Choose("n", 4))
	cl, o := wheres(sym.Choose("where", 3)), orders(sym.Choose("order", 4))
	want := slice(sorted(selected(t.Rows, cl.p), o), 0, 1)
	switch sym.Choose("fault", 3) {
	case 1:
		s.FailAt = 0
	case 2:
		s.RowErr = 0
	}
	got, err := db.QueryOneStmt[model.Item](ctx, s.DB(), func(model.Item) db.SelectOneStmt {
		return db.SelectOneStmt{Where: cl.w, OrderBy: o.by}
	})
	sym.Assert(s.Open == 0, "result-set-closed")
	if s.FailAt == 0 || s.RowErr == 0 {
		sym.Assert(injected(err) && got == nil, "error-surfaced")
		return
	}
	valid(s)
	if len(want) == 0 {
		sym.Assert(notFound(err) && got == nil, "no-rows-reported")
		sym.Cover("absent")
		return
	}
	sym.Assert(err == nil && got != nil, "query-succeeds")
	sym.Assert(got != nil && eqRow(dItem.row(*got), want[0]), "first-row-in-order")
	sym.Cover("found")
}

// execTable gives the rows a statement works on and the rows of another table.
func execTable(s *symsql.Server) (*symsql.Table, *symsql.Table) {
	t := dItem.in(s)
	few(t, sym.Choose("n", sym.B(3, 4)))
	u := s.Table("stock.archive", [][]string{dItem.keys}, dItem.cols...)
	u.Rows = clone(t.Rows)
	return t, u
}

func affected(rows [][]any, cl clause, o order, limit int) []int {
	var idx []int
	for i, r := range rows {
		if cl.p(r) == yes {
			idx = append(idx, i)
		}
	}
	for i := 1; i < len(idx); i++ {
		for j := i; j > 0 && o.less(rows[idx[j]], rows[idx[j-1]]); j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	if limit > 0 && limit < len(idx) {
		idx = idx[:limit]
	}
	return idx
}

func has(idx []int, i int) bool {
	for _, k := range idx {
		if k == i {
			return true
		}
	}
	return false
}

func C06_Update() {
	s := symsql.New(dialect)
	t, u := execTable(s)
	cl, o := wheres(sym.Choose("where", 3)), orders(0)
	limit := 0
	if limits {
		limit, o = sym.Choose("limit", 3), someOrder()
	}
	cat, opt := text("cat", 0, 1), optArg("opt")
	set := []sequel.SetClause{db.Set(item.ColumnCat(), cat)}
	both := sym.Choose("sets", 2) == 1
	if both {
		set = append(set, db.Set(item.ColumnOpt(), opt))
	}
	other := sym.Choose("table", 2) == 1
	idx := affected(t.Rows, cl, o, limit)
	want := clone(t.Rows)
	for _, i := range idx {
		want[i] = with(want[i], 1, cat)
		if both {
			want[i] = with(want[i], 3, *opt)
		}
	}
	stmt := updateStmt(set, cl.w, o.by, limit)
	if other {
		stmt.Table = "archive"
	}
	execOf(s, t, u, other, want, len(idx), func() (any, error) {
		return db.ExecStmt(ctx, s.DB(), func(model.Item) db.UpdateStmt { return stmt })
	})
}

func C06_Delete() {
	s := symsql.New(dialect)
	t, u := execTable(s)
	cl, o := wheres(sym.Choose("where", 3)), orders(0)
	limit := 0
	if limits {
		limit, o = sym.Choose("limit", 3), someOrder()
	}
	other := sym.Choose("table", 2) == 1
	idx := affected(t.Rows, cl, o, limit)
	var want [][]any
	for i, r := range t.Rows {
		if !has(idx, i) {
			want = append(want, r)
		}
	}
	stmt := deleteStmt(cl.w, o.by, limit)
	if other {
		stmt.FromTable = "archive"
	}
	execOf(s, t, u, other, want, len(idx), func() (any, error) {
		return db.ExecStmt(ctx, s.DB(), func(model.Item) db.DeleteStmt { return stmt })
	})
}

func execOf(s *symsql.Server, t, u *symsql.Table, other bool, want [][]any, n int, run func() (any, error)) {
	before := clone(t.Rows)
	if sym.Choose("fault", 2) == 1 {
		s.FailAt = 0
		_, err := run()
		sym.Assert(injected(err), "error-surfaced")
		sym.Assert(eqRows(t.Rows, before) && eqRows(u.Rows, before), "nothing-changed-on-error")
		return
	}
	res, err := run()
	valid(s)
	sym.Assert(err == nil, "statement-succeeds")
	if other {
		t, u = u, t
	}
	sym.Assert(eqRows(u.Rows, before), "other-table-unchanged")
	sym.Assert(eqRows(t.Rows, want), "exactly-the-rows-meeting-the-condition")
	if r, ok := res.(interface{ RowsAffected() (int64, error) }); ok && err == nil {
		k, err := r.RowsAffected()
		sym.Assert(err == nil && k == int64(n), "rows-affected")
	}
	sym.Cover("rows-" + strconv.Itoa(n))
}
