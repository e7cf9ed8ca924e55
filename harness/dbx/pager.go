package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/zzverif/gen/db"
	"github.com/si3nloong/sqlgen/zzverif/gen/model"
	"github.com/si3nloong/sqlgen/zzverif/sym"
	"github.com/si3nloong/sqlgen/zzverif/symsql"
)

// total adds the keys to an order, in the direction of its last column.
func (d desc[T]) total(cols []int, dir []bool) order {
	last := false
	if n := len(dir); n > 0 {
		last = dir[n-1]
	}
	cols, dir = append([]int(nil), cols...), append([]bool(nil), dir...)
	for _, k := range d.keys {
		cols = append(cols, d.col(k))
		dir = append(dir, last)
	}
	return order{nil, byCols(cols, dir)}
}

func reversed(rows [][]any) [][]any {
	var out [][]any
	for i := len(rows) - 1; i >= 0; i-- {
		out = append(out, rows[i])
	}
	return out
}

// paging is one walk over the pages of a table.
type paging[T any] struct {
	d       desc[T]
	t       *symsql.Table
	cl      clause
	by      []sequel.OrderByClause
	total   order
	reverse bool
	cursor  int // the row to begin with, -1 for none
	limit   int
	stop    int // the page to stop after, -1 for none
}

func pagesOf[T sequel.KeyValuer, P sequel.KeyValueScanner[T]](s *symsql.Server, p paging[T], cursor T) {
	d, t := p.d, p.t
	ordered := sorted(t.Rows, p.total)
	if p.reverse {
		ordered = reversed(ordered)
	}
	var want [][]any
	begun := p.cursor < 0
	for _, r := range ordered {
		begun = begun || d.sameKeyFixed(r, t.Rows[p.cursor])
		if begun && p.cl.p(r) == yes {
			want = append(want, r)
		}
	}
	pager := db.Paginate[T, P](db.PaginateStmt{Where: p.cl.w, OrderBy: p.by, Limit: uint16(p.limit)})
	var got [][]any
	var pages int
	var failure error
	more := true
	walk := func(data []T, err error) bool {
		sym.Assert(more, "no-page-after-the-last")
		if err != nil {
			failure, more = err, false
			return true
		}
		sym.Assert(len(data) <= p.limit, "page-within-limit")
		if len(data) < p.limit {
			more = false
		}
		for _, m := range data {
			got = append(got, d.row(m))
		}
		pages++
		if pages > len(t.Rows)+1 {
			panic("paging does not end")
		}
		if p.stop == pages {
			more = false
			return false
		}
		return true
	}
	var cursors []T
	if p.cursor >= 0 {
		cursors = append(cursors, cursor)
	}
	if p.reverse {
		pager.Prev(ctx, s.DB(), cursors...)(walk)
	} else {
		pager.Next(ctx, s.DB(), cursors...)(walk)
	}
	sym.Assert(s.Open == 0, "result-set-closed")
	if failure != nil && injected(failure) {
		sym.Assert(len(got) <= len(want) && eqRows(got, want[:len(got)]), "pages-before-the-error")
		sym.Cover("failed")
		return
	}
	sym.Assert(s.FailAt < 0 || len(s.Calls) <= s.FailAt, "error-surfaced")
	sym.Assert(s.RowErr < 0, "error-surfaced")
	valid(s)
	sym.Assert(failure == nil, "paging-succeeds")
	if p.stop > 0 && len(want) > p.stop*p.limit {
		want = want[:p.stop*p.limit]
	}
	sym.Assert(eqRows(got, want), "each-record-once-in-order")
	sym.Cover("pages-" + strconv.Itoa(pages))
}

func (d desc[T]) sameKeyFixed(a, b []any) bool { return sym.FixBool(d.sameKey(a, b)) }

// pickItem gives the order number k by columns of an item.
func itemOrder(k int) ([]sequel.OrderByClause, order) {
	switch k {
	case 0:
		return nil, dItem.total(nil, nil)
	case 1:
		return orders(1).by, dItem.total([]int{2}, []bool{false})
	case 2:
		return orders(2).by, dItem.total([]int{1}, []bool{true})
	case 3:
		return []sequel.OrderByClause{db.Desc(item.ColumnQty()), db.Asc(item.ColumnCat())}, dItem.total([]int{2, 1}, []bool{true, false})
	}
	panic("no such order")
}

func itemOf(r []any) model.Item {
	m := model.Item{ID: r[0].(int64), Cat: r[1].(string), Qty: int32(r[2].(int64)), Flag: r[4].(bool)}
	if r[3] != nil {
		v := r[3].(int64)
		m.Opt = &v
	}
	return m
}

func itemPages(n, cursors, wheresN, ordersN, limits, stops int, more func(*symsql.Server)) {
	s := symsql.New(dialect)
	t := dItem.in(s)
	few(t, n)
	by, total := itemOrder(sym.Choose("order", ordersN))
	p := paging[model.Item]{d: dItem, t: t, cl: wheres(sym.Choose("where", wheresN)), by: by, total: total,
		reverse: sym.Choose("prev", 2) == 1, cursor: sym.Choose("cursor", cursors) - 1, limit: 1 + sym.Choose("limit", limits), stop: sym.Choose("stop", stops)}
	var m model.Item
	if p.cursor >= 0 {
		m = model.Item{ID: t.Rows[p.cursor][0].(int64)}
	}
	if more != nil {
		more(s)
	}
	pagesOf[model.Item](s, p, m)
}

func C07_All()    { itemPages(3, 1, 1, 4, 3, 1, nil) }
func C07_Cursor() { itemPages(sym.B(2, 3), 3, 1, 4, 2, 1, nil) }
func C07_Where()  { itemPages(2, 3, 3, 2, 2, 1, nil) }
func C07_Stop()   { itemPages(3, 2, 1, 1, 2, 3, nil) }
func C07_Faults() {
	itemPages(3, 2, 1, 1, 2, 1, func(s *symsql.Server) {
		if sym.Choose("kind", 2) == 0 {
			s.FailAt = sym.Choose("at", 3)
		} else {
			s.RowErr = sym.Choose("at", 2)
		}
	})
}

// C07_Gone begins with a record that is not there.
func C07_Gone() {
	s := symsql.New(dialect)
	t := dItem.in(s)
	few(t, 2)
	m := model.Item{ID: sym.Int64("id")}
	for _, r := range t.Rows {
		sym.Assume(r[0].(int64) != m.ID)
	}
	n := 0
	walk := func(data []model.Item, err error) bool {
		n++
		sym.Assert(notFound(err), "missing-cursor-reported")
		return true
	}
	pager := db.Paginate[model.Item, *model.Item](db.PaginateStmt{})
	if sym.Choose("prev", 2) == 1 {
		pager.Prev(ctx, s.DB(), m)(walk)
	} else {
		pager.Next(ctx, s.DB(), m)(walk)
	}
	valid(s)
	sym.Assert(n == 1, "missing-cursor-reported")
}

func keyedPages[T sequel.KeyValuer, P sequel.KeyValueScanner[T]](d desc[T], orders int, pick func(int) ([]sequel.OrderByClause, order), of func([]any) T) {
	s := symsql.New(dialect)
	t := d.in(s)
	d.fill(t, 2)
	by, total := pick(sym.Choose("order", orders))
	p := paging[T]{d: d, t: t, cl: wheres(0), by: by, total: total,
		reverse: sym.Choose("prev", 2) == 1, cursor: sym.Choose("cursor", 3) - 1, limit: 1}
	var m T
	if p.cursor >= 0 {
		m = of(t.Rows[p.cursor])
	}
	pagesOf[T, P](s, p, m)
}

func C07_Comp() {
	keyedPages(dComp, 2, func(k int) ([]sequel.OrderByClause, order) {
		if k == 0 {
			return nil, dComp.total(nil, nil)
		}
		return []sequel.OrderByClause{db.Desc(model.Comp{}.ColumnB())}, dComp.total([]int{2}, []bool{true})
	}, func(r []any) model.Comp { return model.Comp{Shop: r[1].(string), Num: r[3].(int64)} })
}

func C07_AutoLast() {
	keyedPages(dAutoLast, 2, func(k int) ([]sequel.OrderByClause, order) {
		if k == 0 {
			return nil, dAutoLast.total(nil, nil)
		}
		return []sequel.OrderByClause{db.Desc(model.AutoLast{}.ColumnSeq())}, dAutoLast.total([]int{2}, []bool{true})
	}, func(r []any) model.AutoLast { return model.AutoLast{Seq: uint32(r[2].(int64))} })
}

func C07_AutoName() {
	keyedPages(dAutoLast, 1, func(int) ([]sequel.OrderByClause, order) {
		return []sequel.OrderByClause{db.Asc(model.AutoLast{}.ColumnCode())}, dAutoLast.total([]int{1}, []bool{false})
	}, func(r []any) model.AutoLast { return model.AutoLast{Seq: uint32(r[2].(int64))} })
}
