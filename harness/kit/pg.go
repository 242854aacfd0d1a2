package kit

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"
)

// PG is a database server in memory with the schema of the migrations: read-committed transactions that are
// aborted by the first error, unique constraints that wait for concurrent transactions, and a fault plan.
type PG struct {
	mu     sync.Mutex
	cond   *sync.Cond
	tables map[string]*pgTable
	live   []*pgTx
	// Plan is asked before every operation ("connect", "begin", "exec", "query", "row", "commit", "rollback");
	// a non-nil fault makes it fail.
	Plan func(op string, n int) *PGFault
	ops  int
	Log  []string
	// Bad is set when a statement is not understood: the harness cannot answer.
	Bad string
}

// PGFault is a failure of one operation.
type PGFault struct {
	Err error
	// Done: the operation takes effect and only its answer is lost (commit).
	Done bool
	// Lost: the connection is gone; the server rolls its transaction back.
	Lost bool
}

type pgTable struct {
	cols   []string
	types  []string // varchar, int4, int8, bytea, bool
	unique []int
	rows   [][]any
}

// NewPG is an empty database.
func NewPG() *PG {
	p := &PG{tables: map[string]*pgTable{
		"block_header": {cols: []string{"hash", "height", "header_bytes"}, types: []string{"varchar", "int4", "bytea"}, unique: []int{0, 1}},
		"filter":       {cols: []string{"filter_key", "filter_value"}, types: []string{"varchar", "bytea"}, unique: []int{0}},
	}}
	p.cond = sync.NewCond(&p.mu)
	return p
}

// DB opens a pool on the database.
func (p *PG) DB() *sqlx.DB { return sqlx.NewDb(sql.OpenDB(pgConnector{p}), "postgres") }

// Ops is the number of operations so far.
func (p *PG) Ops() int { p.mu.Lock(); defer p.mu.Unlock(); return p.ops }

// Rows is the committed content of a table, sorted.
func (p *PG) Rows(table string) []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	var out []string
	for _, r := range p.tables[table].rows {
		out = append(out, fmt.Sprintf("%v %v %x", r[0], r[1:len(r)-1], r[len(r)-1]))
	}
	sort.Strings(out)
	return out
}

// Snapshot and Restore keep and bring back the committed content.
func (p *PG) Snapshot() map[string][][]any {
	p.mu.Lock()
	defer p.mu.Unlock()
	out := map[string][][]any{}
	for k, t := range p.tables {
		out[k] = append([][]any(nil), t.rows...)
	}
	return out
}

func (p *PG) Restore(s map[string][][]any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for k, t := range p.tables {
		t.rows = append([][]any(nil), s[k]...)
	}
	p.ops, p.Log = 0, nil
}

func (p *PG) fault(op string) *PGFault {
	p.mu.Lock()
	n := p.ops
	p.ops++
	p.Log = append(p.Log, op)
	plan := p.Plan
	p.mu.Unlock()
	if plan == nil {
		return nil
	}
	return plan(op, n)
}

type pgConnector struct{ p *PG }

func (c pgConnector) Driver() driver.Driver { return nil }
func (c pgConnector) Connect(context.Context) (driver.Conn, error) {
	if f := c.p.fault("connect"); f != nil {
		return nil, f.Err
	}
	return &pgConn{p: c.p}, nil
}

type pgConn struct {
	p      *PG
	tx     *pgTx
	broken bool
}

type pgTx struct {
	pending []pgWrite
	aborted bool
	waits   *pgTx
}

type pgWrite struct {
	table  *pgTable
	row    []any
	unique []int
	old    int // replaces the committed row with the same value in this column, -1: a new row
}

func (c *pgConn) IsValid() bool { return !c.broken }
func (c *pgConn) Close() error {
	c.end(false)
	return nil
}

func (c *pgConn) Prepare(q string) (driver.Stmt, error) { return &pgStmt{c, q}, nil }
func (c *pgConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *pgConn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) {
	if c.broken {
		return nil, driver.ErrBadConn
	}
	if f := c.p.fault("begin"); f != nil {
		c.lost(f)
		return nil, f.Err
	}
	c.tx = &pgTx{}
	return (*pgConnTx)(c), nil
}

func (c *pgConn) Ping(context.Context) error {
	if c.broken {
		return driver.ErrBadConn
	}
	if f := c.p.fault("ping"); f != nil {
		c.lost(f)
		return f.Err
	}
	return nil
}

func (c *pgConn) lost(f *PGFault) {
	if f.Lost {
		c.broken = true
		c.end(false)
	} else if c.tx != nil {
		c.p.mu.Lock()
		c.tx.aborted = true
		c.p.cond.Broadcast()
		c.p.mu.Unlock()
	}
}

// end finishes the transaction of the connection.
func (c *pgConn) end(commit bool) {
	c.p.mu.Lock()
	defer c.p.mu.Unlock()
	if c.tx != nil && commit {
		for _, w := range c.tx.pending {
			w.apply()
		}
	}
	if c.tx != nil {
		c.p.forget(c.tx)
	}
	c.tx = nil
	c.p.cond.Broadcast()
}

func (w pgWrite) apply() {
	if w.old >= 0 {
		for i, r := range w.table.rows {
			if same(r[w.old], w.row[w.old]) {
				w.table.rows[i] = w.row
				return
			}
		}
	}
	w.table.rows = append(w.table.rows, w.row)
}

type pgConnTx pgConn

func (t *pgConnTx) Commit() error {
	c := (*pgConn)(t)
	if c.broken {
		return driver.ErrBadConn
	}
	if f := c.p.fault("commit"); f != nil {
		c.end(f.Done && !c.tx.aborted)
		c.broken = c.broken || f.Lost
		return f.Err
	}
	if c.tx.aborted {
		c.end(false)
		return fmt.Errorf("pq: Could not complete operation in a failed transaction")
	}
	c.end(true)
	return nil
}

func (t *pgConnTx) Rollback() error {
	c := (*pgConn)(t)
	if c.broken {
		return driver.ErrBadConn
	}
	f := c.p.fault("rollback")
	c.end(false)
	if f != nil {
		c.broken = c.broken || f.Lost
		return f.Err
	}
	return nil
}

type pgStmt struct {
	c *pgConn
	q string
}

func (s *pgStmt) Close() error  { return nil }
func (s *pgStmt) NumInput() int { return -1 }
func (s *pgStmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(a))
}
func (s *pgStmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(a))
}

func named(a []driver.Value) (out []driver.NamedValue) {
	for i, v := range a {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return out
}

func (c *pgConn) ExecContext(_ context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	_, rows, n, err := c.run("exec", q, a)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(n + len(rows)), nil
}

func (c *pgConn) QueryContext(_ context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	cols, rows, _, err := c.run("query", q, a)
	if err != nil {
		return nil, err
	}
	return &pgRows{c: c, cols: cols, rows: rows}, nil
}

type pgRows struct {
	c    *pgConn
	cols []string
	rows [][]any
	i    int
}

func (r *pgRows) Columns() []string { return r.cols }
func (r *pgRows) Close() error      { return nil }
func (r *pgRows) Next(dest []driver.Value) error {
	if f := r.c.p.fault("row"); f != nil {
		r.c.lost(f)
		return f.Err
	}
	if r.i >= len(r.rows) {
		return io.EOF
	}
	for i, v := range r.rows[r.i] {
		if b, ok := v.([]byte); ok {
			v = append([]byte{}, b...)
		}
		dest[i] = v
	}
	r.i++
	return nil
}

func (c *pgConn) run(op, q string, a []driver.NamedValue) (cols []string, rows [][]any, n int, err error) {
	if c.broken {
		return nil, nil, 0, driver.ErrBadConn
	}
	if f := c.p.fault(op); f != nil {
		c.lost(f)
		return nil, nil, 0, f.Err
	}
	c.p.mu.Lock()
	defer c.p.mu.Unlock()
	if c.tx != nil && c.tx.aborted {
		return nil, nil, 0, pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	own := c.tx == nil
	tx := c.tx
	if own {
		tx = &pgTx{}
	}
	e := &sqlEval{p: c.p, tx: tx, args: a}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(*pq.Error); ok {
					err = pe
					return
				}
				if s, ok := r.(sqlUnknown); ok {
					c.p.Bad = fmt.Sprintf("statement not understood (%s): %s", string(s), q)
					err = pgErr("42601", c.p.Bad)
					return
				}
				panic(r)
			}
		}()
		e.toks = sqlTokens(q)
		cols, rows, n = e.statement()
	}()
	if err != nil {
		tx.aborted = true
		c.p.forget(tx)
		c.p.cond.Broadcast()
		return nil, nil, 0, err
	}
	if own {
		for _, w := range tx.pending {
			w.apply()
		}
		c.p.forget(tx)
		c.p.cond.Broadcast()
	}
	return cols, rows, n, nil
}

func pgErr(code, msg string) *pq.Error {
	return &pq.Error{Code: pq.ErrorCode(code), Message: msg, Severity: "ERROR"}
}

// note and forget keep the list of transactions with pending writes; mu is held.
func (p *PG) note(t *pgTx) {
	for _, x := range p.live {
		if x == t {
			return
		}
	}
	p.live = append(p.live, t)
}
func (p *PG) forget(t *pgTx) {
	for i, x := range p.live {
		if x == t {
			p.live = append(append([]*pgTx{}, p.live[:i]...), p.live[i+1:]...)
			return
		}
	}
}

// ---- a small SQL

type sqlUnknown string

type sqlEval struct {
	p    *PG
	tx   *pgTx
	args []driver.NamedValue
	toks []string
	pos  int

	types []string // of the columns of the last select
}

// table reads the name of a table, possibly qualified.
func (e *sqlEval) table() *pgTable {
	n := e.next()
	if e.is(".") {
		n = e.next()
	}
	return e.tableOf(n)
}

func sqlTokens(q string) (out []string) {
	for i := 0; i < len(q); {
		ch := q[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case ch == '\'':
			j := i + 1
			for j < len(q) && q[j] != '\'' {
				j++
			}
			out = append(out, q[i:min(j+1, len(q))])
			i = j + 1
		case ch == '"':
			j := strings.IndexByte(q[i+1:], '"')
			if j < 0 {
				panic(sqlUnknown("quote"))
			}
			out = append(out, q[i+1:i+1+j])
			i += j + 2
		case strings.HasPrefix(q[i:], "<=") || strings.HasPrefix(q[i:], ">=") || strings.HasPrefix(q[i:], "<>") || strings.HasPrefix(q[i:], "!=") || strings.HasPrefix(q[i:], "::"):
			out = append(out, q[i:i+2])
			i += 2
		case word(ch) || ch == '$':
			j := i + 1
			for j < len(q) && word(q[j]) {
				j++
			}
			out = append(out, q[i:j])
			i = j
		default:
			out = append(out, string(ch))
			i++
		}
	}
	return out
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (e *sqlEval) peek() string {
	if e.pos < len(e.toks) {
		return strings.ToLower(e.toks[e.pos])
	}
	return ""
}
func (e *sqlEval) next() string { t := e.peek(); e.pos++; return t }
func (e *sqlEval) is(ws ...string) bool {
	for i, w := range ws {
		if e.pos+i >= len(e.toks) || strings.ToLower(e.toks[e.pos+i]) != w {
			return false
		}
	}
	e.pos += len(ws)
	return true
}
func (e *sqlEval) want(ws ...string) {
	if !e.is(ws...) {
		panic(sqlUnknown("expected " + strings.Join(ws, " ") + " at " + e.peek()))
	}
}

func (e *sqlEval) statement() (cols []string, rows [][]any, n int) {
	switch e.peek() {
	case "select":
		cols, rows = e.sel()
	case "insert":
		cols, rows, n = e.insert()
	default:
		panic(sqlUnknown("verb " + e.peek()))
	}
	e.is(";")
	if e.pos < len(e.toks) {
		panic(sqlUnknown("rest " + e.peek()))
	}
	return
}

func (e *sqlEval) tableOf(name string) *pgTable {
	t := e.p.tables[name]
	if t == nil {
		panic(pgErr("42P01", "relation "+name+" does not exist"))
	}
	return t
}

func (t *pgTable) col(name string) int {
	for i, c := range t.cols {
		if c == name {
			return i
		}
	}
	panic(pgErr("42703", "column "+name+" does not exist"))
}

// visible is what the statement sees: committed rows and the transaction's own.
func (e *sqlEval) visible(t *pgTable) [][]any {
	rows := append([][]any(nil), t.rows...)
	for _, w := range e.tx.pending {
		if w.table != t {
			continue
		}
		done := false
		if w.old >= 0 {
			for i, r := range rows {
				if same(r[w.old], w.row[w.old]) {
					rows[i], done = w.row, true
				}
			}
		}
		if !done {
			rows = append(rows, w.row)
		}
	}
	return rows
}

type sqlItem struct {
	kind string // *, col, max, min, count, const
	col  string
	as   string
	val  any
}

func (e *sqlEval) sel() (cols []string, out [][]any) {
	e.want("select")
	distinct := e.is("distinct")
	var items []sqlItem
	for {
		it := sqlItem{}
		switch w := e.next(); {
		case w == "*":
			it.kind = "*"
		case w == "exists":
			e.want("(")
			_, r := e.sel()
			e.want(")")
			it = sqlItem{kind: "const", val: len(r) > 0, as: "exists"}
		case (w == "max" || w == "min" || w == "count" || w == "coalesce") && e.peek() == "(":
			e.next()
			if w == "coalesce" {
				w = e.next()
				e.want("(")
				it.val = int64(0)
			}
			it.kind, it.as = w, w
			it.col = e.column()
			e.want(")")
			if it.val != nil {
				e.want(",")
				it.val = e.value(nil, nil)
				e.want(")")
				it.as = "coalesce"
			}
		case w != "" && (w[0] >= '0' && w[0] <= '9' || w[0] == '$' || w[0] == '\'' || w == "true" || w == "false"):
			e.pos--
			it = sqlItem{kind: "const", val: e.value(nil, nil), as: "?column?"}
		default:
			e.pos--
			it.kind = "col"
			it.col = e.column()
			it.as = it.col
		}
		if e.is("as") {
			it.as = e.next()
		}
		items = append(items, it)
		if !e.is(",") {
			break
		}
	}
	if !e.is("from") {
		var row []any
		e.types = nil
		for _, it := range items {
			if it.kind != "const" {
				panic(sqlUnknown("select without from"))
			}
			e.types = append(e.types, constType(it.val))
			cols, row = append(cols, it.as), append(row, it.val)
		}
		return cols, [][]any{row}
	}
	t := e.table()
	if p := e.peek(); p == "as" || p != "" && p != "where" && p != "order" && p != "limit" && p != "for" && p != ")" && p != ";" && p != "offset" {
		e.is("as")
		e.next()
	}
	var rows [][]any
	where := -1
	if e.is("where") {
		where = e.pos
	}
	after := e.pos
	all := e.visible(t)
	if where >= 0 {
		if len(all) == 0 { // parse it all the same
			e.pos = where
			e.cond(t, make([]any, len(t.cols)))
			after = e.pos
		}
		for _, r := range all {
			e.pos = where
			if e.cond(t, r) {
				rows = append(rows, r)
			}
			after = e.pos
		}
	} else {
		rows = all
	}
	e.pos = after
	if e.is("order", "by") {
		type key struct {
			c    int
			desc bool
		}
		var keys []key
		for {
			k := key{c: t.col(e.column())}
			if e.is("desc") {
				k.desc = true
			} else {
				e.is("asc")
			}
			keys = append(keys, k)
			if !e.is(",") {
				break
			}
		}
		sort.SliceStable(rows, func(i, j int) bool {
			for _, k := range keys {
				if c := cmp(rows[i][k.c], rows[j][k.c]); c != 0 {
					return (c < 0) != k.desc
				}
			}
			return false
		})
	}
	if e.is("limit") {
		if n := e.value(nil, nil).(int64); int64(len(rows)) > n {
			rows = rows[:n]
		}
	}
	if e.is("offset") {
		if n := e.value(nil, nil).(int64); int64(len(rows)) > n {
			rows = rows[n:]
		} else {
			rows = nil
		}
	}
	if e.is("for", "update") || e.is("for", "share") {
	}
	e.types = nil
	for _, it := range items {
		switch it.kind {
		case "*":
			e.types = append(e.types, t.types...)
		case "count":
			e.types = append(e.types, "int8")
		case "const":
			e.types = append(e.types, constType(it.val))
		default:
			e.types = append(e.types, t.types[t.col(it.col)])
		}
	}
	agg := false
	for _, it := range items {
		agg = agg || it.kind == "max" || it.kind == "min" || it.kind == "count"
	}
	if agg {
		var row []any
		for _, it := range items {
			cols = append(cols, it.as)
			switch it.kind {
			case "count":
				row = append(row, int64(len(rows)))
			case "max", "min":
				var v any
				c := t.col(it.col)
				for _, r := range rows {
					if v == nil || (cmp(r[c], v) > 0) == (it.kind == "max") {
						v = r[c]
					}
				}
				if v == nil {
					v = it.val
				}
				row = append(row, v)
			case "const":
				row = append(row, it.val)
			default:
				panic(sqlUnknown("column beside an aggregate"))
			}
		}
		return cols, [][]any{row}
	}
	for _, it := range items {
		if it.kind == "*" {
			cols = append(cols, t.cols...)
		} else {
			cols = append(cols, it.as)
		}
	}
	seen := map[string]bool{}
	for _, r := range rows {
		var row []any
		for _, it := range items {
			switch it.kind {
			case "*":
				row = append(row, r...)
			case "col":
				row = append(row, r[t.col(it.col)])
			default:
				row = append(row, it.val)
			}
		}
		if distinct {
			k := fmt.Sprint(row)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		out = append(out, row)
	}
	return cols, out
}

func constType(v any) string {
	switch v.(type) {
	case int64:
		return "int4"
	case bool:
		return "bool"
	case []byte:
		return "bytea"
	}
	return "text"
}

// column reads a column name, possibly qualified, or *.
func (e *sqlEval) column() string {
	w := e.next()
	if e.is(".") {
		w = e.next()
	}
	return w
}

func (e *sqlEval) cond(t *pgTable, row []any) bool {
	v := e.conj(t, row)
	for e.is("or") {
		w := e.conj(t, row)
		v = v || w
	}
	return v
}

func (e *sqlEval) conj(t *pgTable, row []any) bool {
	v := e.term(t, row)
	for e.is("and") {
		w := e.term(t, row)
		v = v && w
	}
	return v
}

func (e *sqlEval) term(t *pgTable, row []any) bool {
	if e.is("not") {
		return !e.term(t, row)
	}
	if e.peek() == "(" && strings.ToLower(e.toks[min(e.pos+1, len(e.toks)-1)]) != "select" {
		e.next()
		v := e.cond(t, row)
		e.want(")")
		return v
	}
	if e.is("exists") {
		e.want("(")
		_, r := e.sel()
		e.want(")")
		return len(r) > 0
	}
	l := e.value(t, row)
	if e.is("between") {
		a := e.value(t, row)
		e.want("and")
		b := e.value(t, row)
		return l != nil && a != nil && b != nil && cmp(l, a) >= 0 && cmp(l, b) <= 0
	}
	if e.is("is") {
		not := e.is("not")
		e.want("null")
		return (l == nil) != not
	}
	not := e.is("not")
	if e.is("in") || e.is("=", "any") {
		e.want("(")
		var vs []any
		if e.peek() == "select" {
			_, r := e.sel()
			for _, x := range r {
				vs = append(vs, x[0])
			}
		} else {
			for {
				vs = append(vs, e.value(t, row))
				if !e.is(",") {
					break
				}
			}
		}
		e.want(")")
		found := false
		for _, v := range vs {
			found = found || v != nil && l != nil && same(v, l)
		}
		return found != not
	}
	op := e.next()
	r := e.value(t, row)
	if l == nil || r == nil {
		return false
	}
	c := cmp(l, r)
	switch op {
	case "=":
		return c == 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	case "<>", "!=":
		return c != 0
	}
	panic(sqlUnknown("operator " + op))
}

func (e *sqlEval) value(t *pgTable, row []any) any {
	v := e.atom(t, row)
	for {
		switch {
		case e.is("+"):
			v = v.(int64) + e.atom(t, row).(int64)
		case e.is("-"):
			v = v.(int64) - e.atom(t, row).(int64)
		case e.is("::"):
			e.next()
		default:
			return v
		}
	}
}

func (e *sqlEval) atom(t *pgTable, row []any) any {
	if e.peek() == "(" {
		e.next()
		var v any
		if e.peek() == "select" {
			_, r := e.sel()
			if len(r) > 0 {
				v = r[0][0]
			}
		} else {
			v = e.value(t, row)
		}
		e.want(")")
		return v
	}
	raw := ""
	if e.pos < len(e.toks) {
		raw = e.toks[e.pos]
	}
	w := e.next()
	switch {
	case w == "":
		panic(sqlUnknown("end"))
	case w[0] == '$':
		n, _ := strconv.Atoi(w[1:])
		if n < 1 || n > len(e.args) {
			panic(pgErr("42P02", "there is no parameter "+w))
		}
		return e.args[n-1].Value
	case w[0] >= '0' && w[0] <= '9':
		n, err := strconv.ParseInt(w, 10, 64)
		if err != nil {
			panic(sqlUnknown(w))
		}
		return n
	case w[0] == '\'':
		return raw[1 : len(raw)-1]
	case w == "null":
		return nil
	case w == "true":
		return true
	case w == "false":
		return false
	}
	if t == nil {
		panic(sqlUnknown("value " + w))
	}
	if e.is(".") {
		w = e.next()
	}
	return row[t.col(w)]
}

func (e *sqlEval) insert() (cols []string, out [][]any, n int) {
	e.want("insert", "into")
	t := e.table()
	var idx []int
	if e.is("(") {
		for {
			idx = append(idx, t.col(e.next()))
			if !e.is(",") {
				break
			}
		}
		e.want(")")
	} else {
		for i := range t.cols {
			idx = append(idx, i)
		}
	}
	e.want("values")
	var rows [][]any
	for {
		e.want("(")
		row := make([]any, len(t.cols))
		for i := range idx {
			if i > 0 {
				e.want(",")
			}
			v := e.value(nil, nil)
			switch x := v.(type) {
			case []byte:
				v = append([]byte{}, x...)
			case string:
				if t.types[idx[i]] == "bytea" {
					v = []byte(x)
				} else if len(x) > 100 {
					panic(pgErr("22001", "value too long"))
				}
			case int64:
				if t.types[idx[i]] == "int4" && (x > 1<<31-1 || x < -1<<31) {
					panic(pgErr("22003", "integer out of range"))
				}
			}
			row[idx[i]] = v
		}
		e.want(")")
		for i, v := range row {
			if v == nil {
				panic(pgErr("23502", "null value in column "+t.cols[i]))
			}
		}
		rows = append(rows, row)
		if !e.is(",") {
			break
		}
	}
	nothing, update := false, map[int]int{}
	arbiters := t.unique
	if e.is("on", "conflict") {
		if e.is("(") {
			c := t.col(e.next())
			e.want(")")
			ok := false
			for _, u := range t.unique {
				ok = ok || u == c
			}
			if !ok {
				panic(pgErr("42P10", "there is no unique constraint matching the ON CONFLICT specification"))
			}
			arbiters = []int{c}
		} else if e.is("on", "constraint") {
			panic(sqlUnknown("constraint name"))
		}
		e.want("do")
		if e.is("nothing") {
			nothing = true
		} else {
			e.want("update", "set")
			for {
				c := t.col(e.column())
				e.want("=")
				e.want("excluded", ".")
				update[c] = t.col(e.next())
				if !e.is(",") {
					break
				}
			}
		}
	}
	if e.is("returning") {
		panic(sqlUnknown("returning"))
	}
	arbiter := func(c int) bool {
		for _, a := range arbiters {
			if a == c {
				return true
			}
		}
		return false
	}
next:
	for _, row := range rows {
		// wait for the transactions that are about to write the same key
		for {
			var other *pgTx
			for _, x := range e.p.live {
				if x == e.tx || x.aborted {
					continue
				}
				for _, w := range x.pending {
					for _, u := range t.unique {
						if w.table == t && same(w.row[u], row[u]) {
							other = x
						}
					}
				}
			}
			if other == nil {
				break
			}
			for x := other; x != nil; x = x.waits {
				if x == e.tx {
					panic(pgErr("40P01", "deadlock detected"))
				}
			}
			e.tx.waits = other
			e.p.cond.Wait()
			e.tx.waits = nil
		}
		for _, r := range e.visible(t) {
			for _, u := range t.unique {
				if !same(r[u], row[u]) {
					continue
				}
				switch {
				case nothing && arbiter(u):
					continue next
				case len(update) > 0 && arbiter(u):
					nr := append([]any(nil), r...)
					for c, s := range update {
						nr[c] = row[s]
					}
					e.tx.pending = append(e.tx.pending, pgWrite{table: t, row: nr, old: u})
					e.p.note(e.tx)
					n++
					continue next
				default:
					pe := pgErr("23505", "duplicate key value violates unique constraint")
					pe.Table, pe.Constraint = "", t.cols[u]
					panic(pe)
				}
			}
		}
		e.tx.pending = append(e.tx.pending, pgWrite{table: t, row: row, old: -1})
		e.p.note(e.tx)
		n++
	}
	return nil, nil, n
}

func same(a, b any) bool { return cmp(a, b) == 0 }

func cmp(a, b any) int {
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if s, isS := b.(string); isS {
			n, err := strconv.ParseInt(s, 10, 64)
			y, ok = n, err == nil
		}
		if !ok {
			panic(pgErr("42883", "operator does not exist"))
		}
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		switch y := b.(type) {
		case string:
			return strings.Compare(x, y)
		case []byte:
			return strings.Compare(x, string(y))
		}
	case []byte:
		switch y := b.(type) {
		case string:
			return strings.Compare(string(x), y)
		case []byte:
			return strings.Compare(string(x), string(y))
		}
	case bool:
		if y, ok := b.(bool); ok && x == y {
			return 0
		}
		return 1
	}
	panic(pgErr("42883", fmt.Sprintf("operator does not exist: %T and %T", a, b)))
}
