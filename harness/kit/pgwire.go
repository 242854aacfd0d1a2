package kit

import (
	"bufio"
	"crypto/md5"
	"database/sql/driver"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/lib/pq"
)

// PGWire serves a PG over TCP with the version 3 protocol of PostgreSQL.
type PGWire struct {
	P                *PG
	User, Pass, Name string
	MD5              bool

	// Crash is asked at every query, insertion and commit ("commit"); when it answers true the statement is not
	// run (or, for a commit with done, run) and the session ends without an answer.
	Crash func(q string) (crash, done bool)

	ln     net.Listener
	mu     sync.Mutex
	conns  map[net.Conn]bool
	Logins []string // user/database of every login, with its outcome
	bad    string
}

// NewPGWire is a server for an empty database without any table.
func NewPGWire(user, pass, name string, md5 bool) (*PGWire, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	w := &PGWire{P: NewPG(), User: user, Pass: pass, Name: name, MD5: md5, ln: ln, conns: map[net.Conn]bool{}}
	w.P.tables = map[string]*pgTable{}
	go w.accept()
	return w, nil
}

// Port is where it listens.
func (w *PGWire) Port() int { return w.ln.Addr().(*net.TCPAddr).Port }

// Conns is the number of connections.
func (w *PGWire) Conns() int { w.mu.Lock(); defer w.mu.Unlock(); return len(w.conns) }

// Bad tells what the server was asked and does not understand.
func (w *PGWire) Bad() string {
	w.P.mu.Lock()
	defer w.P.mu.Unlock()
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.bad + w.P.Bad
}

// Tables is the schema.
func (w *PGWire) Tables() (out []string) {
	w.P.mu.Lock()
	defer w.P.mu.Unlock()
	for n := range w.P.tables {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

// Table is the committed content of a table, nil if there is none.
func (w *PGWire) Table(name string) [][]any {
	w.P.mu.Lock()
	defer w.P.mu.Unlock()
	if t := w.P.tables[name]; t != nil {
		return append([][]any{}, t.rows...)
	}
	return nil
}

// LoginLog is the list of logins so far.
func (w *PGWire) LoginLog() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string(nil), w.Logins...)
}

// Drop breaks every connection.
func (w *PGWire) Drop() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for c := range w.conns {
		c.Close()
	}
}

// Close ends the server.
func (w *PGWire) Close() {
	w.ln.Close()
	w.Drop()
}

func (w *PGWire) accept() {
	for {
		c, err := w.ln.Accept()
		if err != nil {
			return
		}
		w.mu.Lock()
		w.conns[c] = true
		w.mu.Unlock()
		go func() {
			s := &pgSession{w: w, c: c, r: bufio.NewReader(c), db: &pgConn{p: w.P}, stmts: map[string]*pgPrepared{}, portals: map[string]*pgPortal{}}
			s.serve()
			s.db.Close()
			c.Close()
			w.mu.Lock()
			delete(w.conns, c)
			w.mu.Unlock()
		}()
	}
}

type pgSession struct {
	w       *PGWire
	c       net.Conn
	r       *bufio.Reader
	db      *pgConn
	out     []byte
	stmts   map[string]*pgPrepared
	portals map[string]*pgPortal
	skip    bool // until the next sync
	dead    bool
}

type pgPrepared struct {
	q     string
	types []string
	cols  []string
	ctyps []string
}

type pgPortal struct {
	st   *pgPrepared
	args []driver.NamedValue
	fmts []int
}

var pgOIDs = map[string]uint32{"bool": 16, "bytea": 17, "int8": 20, "int4": 23, "text": 25, "varchar": 1043}

func (s *pgSession) put(t byte, parts ...any) {
	s.out = append(s.out, t, 0, 0, 0, 0)
	at := len(s.out) - 4
	for _, p := range parts {
		switch v := p.(type) {
		case byte:
			s.out = append(s.out, v)
		case int16:
			s.out = binary.BigEndian.AppendUint16(s.out, uint16(v))
		case int:
			s.out = binary.BigEndian.AppendUint32(s.out, uint32(int32(v)))
		case uint32:
			s.out = binary.BigEndian.AppendUint32(s.out, v)
		case string:
			s.out = append(append(s.out, v...), 0)
		case []byte:
			s.out = append(s.out, v...)
		default:
			panic("HARNESS-ERROR put")
		}
	}
	binary.BigEndian.PutUint32(s.out[at:], uint32(len(s.out)-at))
}

func (s *pgSession) flush() error {
	if s.dead {
		return io.EOF
	}
	_, err := s.c.Write(s.out)
	s.out = s.out[:0]
	return err
}

func (s *pgSession) fail(err error) {
	code, msg := "XX000", err.Error()
	var pe *pq.Error
	if errors.As(err, &pe) {
		code, msg = string(pe.Code), pe.Message
	}
	s.put('E', byte('S'), "ERROR", byte('V'), "ERROR", byte('C'), code, byte('M'), msg, byte(0))
}

func (s *pgSession) ready() {
	st := byte('I')
	if s.db.tx != nil {
		st = 'T'
		s.w.P.mu.Lock()
		if s.db.tx.aborted {
			st = 'E'
		}
		s.w.P.mu.Unlock()
	}
	s.put('Z', st)
}

func (s *pgSession) message() (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(s.r, h[:]); err != nil {
		return 0, nil, err
	}
	n := binary.BigEndian.Uint32(h[1:])
	if n < 4 || n > 1<<28 {
		return 0, nil, errors.New("length")
	}
	b := make([]byte, n-4)
	_, err := io.ReadFull(s.r, b)
	return h[0], b, err
}

func cstr(b *[]byte) string {
	i := strings.IndexByte(string(*b), 0)
	if i < 0 {
		i = len(*b) - 1
	}
	v := string((*b)[:i])
	*b = (*b)[i+1:]
	return v
}

func u16(b *[]byte) int { v := binary.BigEndian.Uint16(*b); *b = (*b)[2:]; return int(v) }
func u32(b *[]byte) int { v := int32(binary.BigEndian.Uint32(*b)); *b = (*b)[4:]; return int(v) }

func (s *pgSession) login() bool {
	for {
		var h [8]byte
		if _, err := io.ReadFull(s.r, h[:]); err != nil {
			return false
		}
		n, code := binary.BigEndian.Uint32(h[:4]), binary.BigEndian.Uint32(h[4:])
		switch code {
		case 80877103: // TLS
			s.c.Write([]byte{'N'})
			continue
		case 196608:
		default:
			return false
		}
		if n < 8 || n > 1<<16 {
			return false
		}
		b := make([]byte, n-8)
		if _, err := io.ReadFull(s.r, b); err != nil {
			return false
		}
		ps := map[string]string{}
		for len(b) > 1 {
			k := cstr(&b)
			ps[k] = cstr(&b)
		}
		name := ps["database"]
		if name == "" {
			name = ps["user"]
		}
		ask := func() string {
			t, b, err := s.message()
			if err != nil || t != 'p' {
				return ""
			}
			return cstr(&b)
		}
		ok := false
		if s.w.MD5 {
			s.put('R', 5, []byte("salt"))
			s.flush()
			sum := func(x string) string { m := md5.Sum([]byte(x)); return hex.EncodeToString(m[:]) }
			ok = ask() == "md5"+sum(sum(s.w.Pass+ps["user"])+"salt")
		} else {
			s.put('R', 3)
			s.flush()
			ok = ask() == s.w.Pass
		}
		problem := pgErr("", "")
		switch {
		case !ok || ps["user"] != s.w.User:
			problem = pgErr("28P01", "password authentication failed for user "+ps["user"])
		case name != s.w.Name:
			problem = pgErr("3D000", "database "+name+" does not exist")
		}
		if f := s.w.P.fault("connect"); f != nil && problem.Code == "" {
			problem = pgErr("57P03", f.Err.Error())
		}
		s.w.mu.Lock()
		s.w.Logins = append(s.w.Logins, fmt.Sprintf("%s/%s %s", ps["user"], name, problem.Code))
		s.w.mu.Unlock()
		if problem.Code != "" {
			s.fail(problem)
			s.flush()
			return false
		}
		s.put('R', 0)
		s.put('S', "server_version", "14.5")
		s.put('S', "standard_conforming_strings", "on")
		s.put('S', "client_encoding", "UTF8")
		s.put('S', "TimeZone", "Etc/UTC")
		s.put('K', 1, 2)
		s.ready()
		return s.flush() == nil
	}
}

func (s *pgSession) serve() {
	if !s.login() {
		return
	}
	for {
		t, b, err := s.message()
		if err != nil {
			return
		}
		if s.skip && t != 'S' {
			continue
		}
		switch t {
		case 'X':
			return
		case 'Q':
			s.simple(cstr(&b))
			s.ready()
			if s.flush() != nil {
				return
			}
		case 'S':
			s.skip = false
			s.ready()
			if s.flush() != nil {
				return
			}
		case 'H':
			if s.flush() != nil {
				return
			}
		case 'P', 'D', 'B', 'E', 'C':
			if err := s.extended(t, b); err != nil {
				s.fail(err)
				s.skip = true
			}
		default:
			s.w.unknown("message %q", t)
			return
		}
		if s.dead {
			return
		}
	}
}

func (w *PGWire) unknown(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.bad += fmt.Sprintf(f, a...) + "\n"
}

// crash asks whether the client dies at this point.
func (s *pgSession) crash(q string) (dead, done bool) {
	s.w.mu.Lock()
	f := s.w.Crash
	s.w.mu.Unlock()
	if f != nil {
		dead, done = f(q)
	}
	s.dead = s.dead || dead
	return
}

// SetCrash changes Crash.
func (w *PGWire) SetCrash(f func(q string) (crash, done bool)) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.Crash = f
}

func (s *pgSession) simple(q string) {
	parts := splitSQL(q)
	if len(parts) == 0 {
		s.put('I')
		return
	}
	for _, p := range parts {
		cols, typs, err := s.describe(p, nil)
		if err == nil {
			err = s.execute(p, nil, cols, typs, nil, true)
		}
		if err != nil {
			s.fail(err)
			return
		}
	}
}

func splitSQL(q string) (out []string) {
	start, quote := 0, byte(0)
	emit := func(x string) {
		if len(sqlTokens(x)) > 0 {
			out = append(out, x)
		}
	}
	for i := 0; i < len(q); i++ {
		switch {
		case quote != 0:
			if q[i] == quote {
				quote = 0
			}
		case q[i] == '\'' || q[i] == '"':
			quote = q[i]
		case q[i] == ';':
			emit(q[start:i])
			start = i + 1
		}
	}
	emit(q[start:])
	return
}

func (s *pgSession) extended(t byte, b []byte) error {
	switch t {
	case 'P':
		name, q := cstr(&b), cstr(&b)
		types := s.w.P.paramTypes(q)
		cols, ctyps, err := s.describe(q, types)
		if err != nil {
			return err
		}
		s.stmts[name] = &pgPrepared{q, types, cols, ctyps}
		s.put('1')
	case 'D':
		kind := b[0]
		b = b[1:]
		name := cstr(&b)
		var st *pgPrepared
		var fmts []int
		if kind == 'S' {
			st = s.stmts[name]
		} else if p := s.portals[name]; p != nil {
			st, fmts = p.st, p.fmts
		}
		if st == nil {
			return pgErr("26000", "no statement")
		}
		if kind == 'S' {
			parts := []any{int16(len(st.types))}
			for _, x := range st.types {
				parts = append(parts, pgOIDs[x])
			}
			s.put('t', parts...)
		}
		s.rowDescription(st.cols, st.ctyps, fmts)
	case 'B':
		portal, name := cstr(&b), cstr(&b)
		st := s.stmts[name]
		if st == nil {
			return pgErr("26000", "no statement")
		}
		formats := func() (fs []int) {
			for i, n := 0, u16(&b); i < n; i++ {
				fs = append(fs, u16(&b))
			}
			return
		}
		format := func(fs []int, i int) int {
			switch {
			case len(fs) == 0:
				return 0
			case len(fs) == 1:
				return fs[0]
			}
			return fs[i]
		}
		pf := formats()
		n := u16(&b)
		if n != len(st.types) {
			return pgErr("08P01", fmt.Sprintf("bind message supplies %d parameters, but prepared statement requires %d", n, len(st.types)))
		}
		p := &pgPortal{st: st}
		for i := 0; i < n; i++ {
			l := u32(&b)
			var v any
			if l >= 0 {
				raw := b[:l]
				b = b[l:]
				var err error
				if v, err = pgValue(st.types[i], string(raw), format(pf, i) == 1); err != nil {
					return err
				}
			}
			p.args = append(p.args, driver.NamedValue{Ordinal: i + 1, Value: v})
		}
		p.fmts = formats()
		if len(p.fmts) == 1 {
			for len(p.fmts) < len(st.cols) {
				p.fmts = append(p.fmts, p.fmts[0])
			}
		}
		s.portals[portal] = p
		s.put('2')
	case 'E':
		p := s.portals[cstr(&b)]
		if p == nil {
			return pgErr("34000", "no portal")
		}
		return s.execute(p.st.q, p.args, p.st.cols, p.st.ctyps, p.fmts, false)
	case 'C':
		kind := b[0]
		b = b[1:]
		if kind == 'S' {
			delete(s.stmts, cstr(&b))
		} else {
			delete(s.portals, cstr(&b))
		}
		s.put('3')
	}
	return nil
}

func pgValue(typ, raw string, bin bool) (any, error) {
	if bin {
		switch typ {
		case "bytea":
			return []byte(raw), nil
		case "int4":
			return int64(int32(binary.BigEndian.Uint32([]byte(raw)))), nil
		case "int8":
			return int64(binary.BigEndian.Uint64([]byte(raw))), nil
		}
		return raw, nil
	}
	switch typ {
	case "bytea":
		if strings.HasPrefix(raw, `\x`) {
			v, err := hex.DecodeString(raw[2:])
			if err != nil {
				return nil, pgErr("22P02", "invalid bytea")
			}
			return v, nil
		}
		var v []byte
		for i := 0; i < len(raw); i++ {
			if raw[i] != '\\' {
				v = append(v, raw[i])
			} else if i+1 < len(raw) && raw[i+1] == '\\' {
				v = append(v, '\\')
				i++
			} else if i+3 < len(raw) {
				n, err := strconv.ParseUint(raw[i+1:i+4], 8, 8)
				if err != nil {
					return nil, pgErr("22P02", "invalid bytea")
				}
				v = append(v, byte(n))
				i += 3
			} else {
				return nil, pgErr("22P02", "invalid bytea")
			}
		}
		if v == nil {
			v = []byte{}
		}
		return v, nil
	case "int4", "int8":
		bits := 32
		if typ == "int8" {
			bits = 64
		}
		n, err := strconv.ParseInt(strings.TrimSpace(raw), 10, bits)
		if err != nil {
			return nil, pgErr("22003", "value "+raw+" is out of range or no integer")
		}
		return n, nil
	case "bool":
		switch raw {
		case "t", "true", "on", "1":
			return true, nil
		}
		return false, nil
	}
	if strings.IndexByte(raw, 0) >= 0 {
		return nil, pgErr("22021", "invalid byte sequence for encoding UTF8: 0x00")
	}
	return raw, nil
}

func (s *pgSession) rowDescription(cols, typs []string, fmts []int) {
	if len(cols) == 0 {
		s.put('n')
		return
	}
	parts := []any{int16(len(cols))}
	for i, c := range cols {
		size, f := int16(-1), int16(0)
		switch typs[i] {
		case "int4":
			size = 4
		case "int8":
			size = 8
		case "bool":
			size = 1
		}
		if i < len(fmts) {
			f = int16(fmts[i])
		}
		parts = append(parts, c, 0, int16(0), pgOIDs[typs[i]], size, -1, f)
	}
	s.put('T', parts...)
}

func upper(q string) string { return strings.ToUpper(strings.Join(sqlTokens(q), " ")) }

// describe tells the columns of a query and their types.
func (s *pgSession) describe(q string, types []string) (cols, typs []string, err error) {
	u := upper(q)
	switch {
	case u == "SELECT CURRENT_DATABASE ( )", u == "SELECT CURRENT_SCHEMA ( )":
		return []string{"name"}, []string{"text"}, nil
	case strings.HasPrefix(u, "SELECT PG_ADVISORY"):
		return []string{"lock"}, []string{"text"}, nil
	case strings.Contains(u, "INFORMATION_SCHEMA . TABLES"):
		return []string{"count"}, []string{"int8"}, nil
	case !strings.HasPrefix(u, "SELECT"):
		return nil, nil, nil
	}
	var args []driver.NamedValue
	for i, t := range types {
		var v any = ""
		switch t {
		case "bytea":
			v = []byte{}
		case "int4", "int8":
			v = int64(0)
		case "bool":
			v = false
		}
		args = append(args, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	s.w.P.mu.Lock()
	defer s.w.P.mu.Unlock()
	defer func() {
		switch r := recover().(type) {
		case nil:
		case *pq.Error:
			err = r
		case sqlUnknown:
			s.w.unknown("statement not understood (%s): %s", string(r), q)
			err = pgErr("42601", string(r))
		default:
			panic(r)
		}
	}()
	e := &sqlEval{p: s.w.P, tx: &pgTx{}, args: args, toks: sqlTokens(q)}
	cols, _, _ = e.statement()
	return cols, e.types, nil
}

// execute runs one statement and writes its result.
func (s *pgSession) execute(q string, args []driver.NamedValue, cols, typs []string, fmts []int, describe bool) error {
	u := upper(q)
	w := strings.Fields(u)
	if s.db.tx != nil && w[0] != "ROLLBACK" && w[0] != "COMMIT" && w[0] != "END" {
		s.w.P.mu.Lock()
		aborted := s.db.tx.aborted
		s.w.P.mu.Unlock()
		if aborted {
			return pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
		}
	}
	row := func(v string) {
		if describe {
			s.rowDescription(cols, typs, fmts)
		}
		s.put('D', int16(1), len(v), []byte(v))
		s.put('C', "SELECT 1")
	}
	switch {
	case w[0] == "BEGIN" || w[0] == "START":
		if s.db.tx == nil {
			if _, err := s.db.Begin(); err != nil {
				return s.lost(err)
			}
		}
		s.put('C', "BEGIN")
		return nil
	case w[0] == "COMMIT" || w[0] == "END":
		if s.db.tx == nil {
			s.put('C', "COMMIT")
			return nil
		}
		s.w.P.mu.Lock()
		aborted := s.db.tx.aborted
		s.w.P.mu.Unlock()
		if aborted {
			s.db.end(false)
			s.put('C', "ROLLBACK")
			return nil
		}
		if dead, done := s.crash("commit"); dead {
			s.db.end(done)
			return nil
		}
		if err := (*pgConnTx)(s.db).Commit(); err != nil {
			return s.lost(err)
		}
		s.put('C', "COMMIT")
		return nil
	case w[0] == "ROLLBACK":
		if s.db.tx != nil {
			if err := (*pgConnTx)(s.db).Rollback(); err != nil {
				return s.lost(err)
			}
		}
		s.put('C', "ROLLBACK")
		return nil
	case w[0] == "SET" || w[0] == "DISCARD" || w[0] == "DEALLOCATE":
		s.put('C', w[0])
		return nil
	case u == "SELECT CURRENT_DATABASE ( )":
		row(s.w.Name)
		return nil
	case u == "SELECT CURRENT_SCHEMA ( )":
		row("public")
		return nil
	case strings.HasPrefix(u, "SELECT PG_ADVISORY"):
		row("t")
		return nil
	case strings.Contains(u, "INFORMATION_SCHEMA . TABLES"):
		n := 0
		s.w.P.mu.Lock()
		for _, a := range args {
			if x, ok := a.Value.(string); ok && s.w.P.tables[x] != nil {
				n = 1
			}
		}
		s.w.P.mu.Unlock()
		v := strconv.Itoa(n)
		if len(fmts) == 1 && fmts[0] == 1 {
			v = string(binary.BigEndian.AppendUint64(nil, uint64(n)))
		}
		row(v)
		return nil
	case w[0] == "CREATE" || w[0] == "TRUNCATE" || w[0] == "DROP" || w[0] == "DELETE" || w[0] == "ALTER":
		if err := s.ddl(q, w); err != nil {
			return err
		}
		s.put('C', w[0])
		return nil
	}
	if len(w) == 0 {
		s.put('I')
		return nil
	}
	if dead, _ := s.crash(q); dead {
		return nil
	}
	op := "exec"
	if w[0] == "SELECT" {
		op = "query"
	}
	_, rows, n, err := s.db.run(op, q, args)
	if err != nil {
		return s.lost(err)
	}
	if w[0] != "SELECT" {
		s.put('C', fmt.Sprintf("INSERT 0 %d", n))
		return nil
	}
	if describe {
		s.rowDescription(cols, typs, fmts)
	}
	for _, r := range rows {
		parts := []any{int16(len(r))}
		for i, v := range r {
			if v == nil {
				parts = append(parts, -1)
				continue
			}
			b := pgEncode(typs[i], v, i < len(fmts) && fmts[i] == 1)
			parts = append(parts, len(b), b)
		}
		s.put('D', parts...)
	}
	s.put('C', fmt.Sprintf("SELECT %d", len(rows)))
	return nil
}

func pgEncode(typ string, v any, bin bool) []byte {
	if bin {
		switch typ {
		case "int8":
			return binary.BigEndian.AppendUint64(nil, uint64(v.(int64)))
		case "int4":
			return binary.BigEndian.AppendUint32(nil, uint32(v.(int64)))
		case "bytea":
			return append([]byte{}, v.([]byte)...)
		}
	}
	switch x := v.(type) {
	case []byte:
		return []byte(`\x` + hex.EncodeToString(x))
	case bool:
		if x {
			return []byte("t")
		}
		return []byte("f")
	}
	return []byte(fmt.Sprint(v))
}

// lost ends the session if the fault broke the connection.
func (s *pgSession) lost(err error) error {
	if s.db.broken {
		s.dead = true
	}
	return err
}

func (s *pgSession) ddl(q string, w []string) error {
	toks := sqlTokens(q)
	for i := range toks {
		toks[i] = strings.ToLower(toks[i])
	}
	i := 0
	is := func(ws ...string) bool {
		for j, x := range ws {
			if i+j >= len(toks) || toks[i+j] != x {
				return false
			}
		}
		i += len(ws)
		return true
	}
	name := func() string {
		n := toks[i]
		i++
		if is(".") {
			n = toks[i]
			i++
		}
		return n
	}
	p := s.w.P
	p.mu.Lock()
	defer p.mu.Unlock()
	switch {
	case is("create", "table"):
		maybe := is("if", "not", "exists")
		n := name()
		if p.tables[n] != nil {
			if maybe {
				return nil
			}
			return pgErr("42P07", "relation "+n+" already exists")
		}
		if !is("(") {
			break
		}
		t := &pgTable{}
		for i < len(toks) {
			if is("unique", "(") || is("primary", "key", "(") {
				t.unique = append(t.unique, t.col(toks[i]))
				i += 2
			} else {
				t.cols = append(t.cols, toks[i])
				typ := toks[i+1]
				switch typ {
				case "bigint":
					typ = "int8"
				case "int", "integer":
					typ = "int4"
				case "boolean":
					typ = "bool"
				}
				if _, ok := pgOIDs[typ]; !ok {
					s.w.unknown("type %s", typ)
					return pgErr("42704", "type "+typ+" does not exist")
				}
				t.types = append(t.types, typ)
				i += 2
				depth := 0
				for i < len(toks) && (depth > 0 || toks[i] != "," && toks[i] != ")") {
					switch toks[i] {
					case "(":
						depth++
					case ")":
						depth--
					case "unique", "primary":
						t.unique = append(t.unique, len(t.cols)-1)
					}
					i++
				}
			}
			if is(",") {
				continue
			}
			if is(")") {
				break
			}
			s.w.unknown("definition %s", q)
			return pgErr("42601", "syntax")
		}
		p.tables[n] = t
		return nil
	case is("truncate"):
		is("table")
		n := name()
		if p.tables[n] == nil {
			return pgErr("42P01", "relation "+n+" does not exist")
		}
		p.tables[n].rows = nil
		return nil
	case is("delete", "from"):
		n := name()
		if i == len(toks) && p.tables[n] != nil {
			p.tables[n].rows = nil
			return nil
		}
	case is("drop", "table"):
		maybe := is("if", "exists")
		n := name()
		if p.tables[n] == nil && !maybe {
			return pgErr("42P01", "relation "+n+" does not exist")
		}
		delete(p.tables, n)
		return nil
	}
	s.w.unknown("statement not understood: %s", q)
	return pgErr("42601", "syntax")
}

// paramTypes guesses the types of the parameters from the columns they are written to or compared with.
func (p *PG) paramTypes(q string) (out []string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	toks := sqlTokens(q)
	for i := range toks {
		toks[i] = strings.ToLower(toks[i])
	}
	at := func(i int) string {
		if i >= 0 && i < len(toks) {
			return toks[i]
		}
		return ""
	}
	set := func(tok, typ string) {
		n, _ := strconv.Atoi(tok[1:])
		for len(out) < n {
			out = append(out, "text")
		}
		if n > 0 {
			out[n-1] = typ
		}
	}
	types := map[string]string{}
	for _, t := range p.tables {
		for i, c := range t.cols {
			types[c] = t.types[i]
		}
	}
	i := 0
	if at(0) == "insert" {
		i = 2
		n := at(i)
		i++
		if at(i) == "." {
			n = at(i + 1)
			i += 2
		}
		var cols []string
		if at(i) == "(" {
			for i++; i < len(toks) && at(i) != ")"; i++ {
				if at(i) != "," {
					cols = append(cols, at(i))
				}
			}
			i++
		} else if t := p.tables[n]; t != nil {
			cols = t.cols
		}
		if at(i) == "values" {
			depth, k := 0, 0
			for i++; i < len(toks) && at(i) != "on"; i++ {
				switch x := at(i); {
				case x == "(":
					if depth++; depth == 1 {
						k = 0
					}
				case x == ")":
					depth--
				case x == "," && depth == 1:
					k++
				case x[0] == '$':
					typ := "text"
					if k < len(cols) {
						if typ = types[cols[k]]; typ == "" {
							typ = "text"
						}
					}
					set(x, typ)
				}
			}
		}
	}
	for ; i < len(toks); i++ {
		if at(i)[0] != '$' {
			continue
		}
		typ := "text"
		for j := i - 1; j >= 0; j-- {
			if x := at(j); x == "limit" || x == "offset" || strings.HasPrefix(x, "pg_advisory") {
				typ = "int8"
				break
			} else if types[x] != "" {
				typ = types[x]
				break
			}
		}
		set(at(i), typ)
	}
	return out
}
