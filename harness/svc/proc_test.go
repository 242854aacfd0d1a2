package svc

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// procPlan makes the daemon of a scenario a process with a PostgreSQL server.
type procPlan struct {
	MD5              bool
	User, Pass, Name string
	Stops            []int // which signal stops it
}

var stopSignals = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}

type proc struct {
	plan  procPlan
	wire  *kit.PGWire
	cmd   *exec.Cmd
	out   *bytes.Buffer
	ended chan struct{}
	stops int
	seen  map[string]string // rows of the database that must stay as they are
}

func drawProc(t *rapid.T) scenario {
	s := drawScenario(t)
	word := rapid.StringMatching(`[a-zA-Z0-9_.~-]{1,12}`)
	s.Proc = &procPlan{
		MD5:   rapid.Bool().Draw(t, "md5"),
		User:  word.Draw(t, "user"),
		Pass:  rapid.OneOf(word, rapid.StringMatching(`[a-zA-Z0-9@:/?#%&=+ '"\\$!]{1,12}`)).Draw(t, "password"),
		Name:  word.Draw(t, "database"),
		Stops: rapid.SliceOfN(rapid.IntRange(0, 2), 1, 4).Draw(t, "stops"),
	}
	// a daemon that dies, possibly several times, before any of the operations
	var ops []e2eOp
	kills := 0
	kill := func() {
		for kills < 5 && rapid.IntRange(0, 1).Draw(t, "kill") == 0 {
			kills++
			o := e2eOp{Kind: "kill", Via: rapid.SampledFrom([]string{"query", "query", "commit", "commit", "late", "time"}).Draw(t, "at")}
			switch o.Via {
			case "time":
				o.N = rapid.IntRange(0, 300).Draw(t, "ms")
			default:
				o.N = rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 80)).Draw(t, "n")
			}
			if rapid.Bool().Draw(t, "mined meanwhile") {
				o.Start = rapid.IntRange(1, 3).Draw(t, "blocks")
				for i := 0; i < o.Start; i++ {
					s.Blocks = append(s.Blocks, nil)
				}
			}
			ops = append(ops, o)
		}
	}
	kill()
	for _, o := range s.Ops {
		if o.Kind == "restart" {
			kill()
		}
		ops = append(ops, o)
		if o.Kind == "mine" {
			kill()
		}
	}
	kill()
	s.Ops = ops
	return s
}

func migrations() string {
	return "file://" + filepath.Join(os.Getenv("VERIF_REPO"), "internal/infrastructure/storage/db/pg/migration")
}

func (e *e2e) newProc() {
	w, err := kit.NewPGWire(e.s.Proc.User, e.s.Proc.Pass, e.s.Proc.Name, e.s.Proc.MD5)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	e.proc = &proc{plan: *e.s.Proc, wire: w, seen: map[string]string{}}
	e.closeDB = func() string {
		if e.proc.cmd != nil {
			e.proc.cmd.Process.Kill()
			<-e.proc.ended
		}
		w.Close()
		return w.Bad()
	}
}

// daemon starts the process.
func daemon(env map[string]string) (cmd *exec.Cmd, out *bytes.Buffer, ended chan struct{}) {
	cmd = exec.Command(os.Getenv("VERIF_BIN_NEUTRINOD"))
	cmd.Dir = os.TempDir()
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "NEUTRINO_ELEMENTS_") && !strings.HasPrefix(kv, "PG") {
			cmd.Env = append(cmd.Env, kv)
		}
	}
	for k, v := range env {
		cmd.Env = append(cmd.Env, "NEUTRINO_ELEMENTS_"+k+"="+v)
	}
	out = new(bytes.Buffer)
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	ended = make(chan struct{})
	go func() { cmd.Wait(); close(ended) }()
	return
}

func (e *e2e) procEnv() map[string]string {
	return map[string]string{
		"NEUTRINOD_URL": e.address, "EXPLORER_URL": e.explorer.URL, "PEER_URL": e.ln.Addr().String(), "NETWORK": e.net.Name,
		"DB_USER": e.proc.plan.User, "DB_PASS": e.proc.plan.Pass, "DB_HOST": "127.0.0.1", "DB_PORT": fmt.Sprint(e.proc.wire.Port()),
		"DB_NAME": e.proc.plan.Name, "DB_MIGRATION_PATH": migrations(),
	}
}

// start runs the daemon; false if it does not come up.
func (p *proc) start(e *e2e) bool {
	p.cmd, p.out, p.ended = daemon(e.procEnv())
	for end := time.Now().Add(patience); ; time.Sleep(5 * time.Millisecond) {
		select {
		case <-p.ended:
			e.failf("the daemon ended (%v), after the logins %q:\n%s", p.cmd.ProcessState, p.wire.LoginLog(), p.tail())
			p.cmd = nil
			return false
		default:
		}
		if c, err := net.Dial("tcp", e.address); err == nil {
			c.Close()
			return true
		}
		if time.Now().After(end) {
			p.cmd.Process.Signal(syscall.SIGABRT)
			<-p.ended
			e.failf("the daemon does not serve:\n%s", p.tail())
			p.cmd = nil
			return false
		}
	}
}

// synced waits until the database holds the peer's chain.
func (p *proc) synced(e *e2e) {
	for end := time.Now().Add(patience); len(p.wire.Table("block_header")) < e.tip; time.Sleep(5 * time.Millisecond) {
		if time.Now().After(end) {
			e.failf("the database holds %d headers, the peer %d", len(p.wire.Table("block_header")), e.tip)
			return
		}
	}
}

func (p *proc) tail() string {
	s := p.out.String()
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
		return s[:min(len(s), 6000)]
	}
	if i := strings.Index(s, "SIGABRT"); i >= 0 {
		return repoOf(s[i:])
	}
	return s[max(0, len(s)-3000):]
}

// stop ends the daemon with a signal; false if it does not end well.
func (p *proc) stop(e *e2e) bool {
	if p.cmd == nil {
		return true
	}
	sig := stopSignals[p.plan.Stops[p.stops%len(p.plan.Stops)]]
	p.stops++
	p.cmd.Process.Signal(sig)
	select {
	case <-p.ended:
	case <-time.After(patience):
		p.cmd.Process.Signal(syscall.SIGABRT)
		<-p.ended
		e.failf("the daemon did not end on %v:\n%s", sig, p.tail())
		p.cmd = nil
		return false
	}
	st := p.cmd.ProcessState
	if !st.Success() {
		e.failf("the daemon ended on %v with %v:\n%s", sig, st, p.tail())
		p.cmd = nil
		return false
	}
	p.cmd = nil
	if c, err := net.Dial("tcp", e.address); err == nil {
		c.Close()
		e.failf("the address is still served after %v", sig)
		return false
	}
	return p.intact(e, false)
}

// intact tells whether the database holds a part of the peer's chain, and all it ever held.
func (p *proc) intact(e *e2e, complete bool) bool {
	var heights []int
	for _, r := range p.wire.Table("block_header") {
		heights = append(heights, int(r[1].(int64)))
		k := fmt.Sprint("header ", r[0])
		v := fmt.Sprintf("%v %x", r[1], r[2])
		if old, ok := p.seen[k]; ok && old != v {
			e.failf("the row %s of the database changed from %s to %s", k, old, v)
			return false
		}
		p.seen[k] = v
	}
	sort.Ints(heights)
	for i, h := range heights {
		if h != i+1 {
			e.failf("the database holds the heights %v", heights)
			return false
		}
	}
	n := len(heights)
	filters := map[string]bool{}
	for _, r := range p.wire.Table("filter") {
		k := fmt.Sprint("filter ", r[0])
		filters[k] = true
		v := fmt.Sprintf("%x", r[1])
		if old, ok := p.seen[k]; ok && old != v {
			e.failf("the row %s of the database changed from %s to %s", k, old, v)
			return false
		}
		p.seen[k] = v
	}
	for k := range p.seen {
		if strings.HasPrefix(k, "filter") && !filters[k] {
			e.failf("the database lost the %s", k)
			return false
		}
	}
	have := len(heights)
	seenHeaders := 0
	for k := range p.seen {
		if strings.HasPrefix(k, "header") {
			seenHeaders++
		}
	}
	if seenHeaders != have {
		e.failf("the database lost headers: it held %d and holds %d", seenHeaders, have)
		return false
	}
	e.mu.Lock()
	tip := e.tip
	e.mu.Unlock()
	if n > tip || complete && n != tip {
		e.failf("the database holds %d headers, the peer %d", n, tip)
		return false
	}
	if tabs := strings.Join(p.wire.Tables(), " "); tabs != "block_header filter schema_migrations" {
		e.failf("the database has the tables %s", tabs)
		return false
	}
	if rows := p.wire.Table("schema_migrations"); len(rows) != 1 || fmt.Sprint(rows[0]) != "[20220721142449 false]" {
		e.failf("the database has the migrations %v", rows)
		return false
	}
	// what the stores make of it
	db := p.wire.P.DB()
	defer db.Close()
	svc := &dbpg.DbService{Db: db}
	hs, err := dbpg.NewHeaderRepositoryImpl(svc)
	if err != nil {
		e.failf("header store: %v", err)
		return false
	}
	fs, err := dbpg.NewFilterRepositoryImpl(svc)
	if err != nil {
		e.failf("filter store: %v", err)
		return false
	}
	stored := 0
	for i, h := range e.headers[:n] {
		hash := chainhash.Hash(kit.HeaderHash(h))
		got, err := hs.GetBlockHeader(context.Background(), hash)
		if err != nil || !bytes.Equal(kit.EncodeHeader(got, false), kit.EncodeHeader(h, false)) || got.Height != uint32(i+1) {
			e.failf("the stored header %d is %+v (%v)", i+1, got, err)
			return false
		}
		f, err := fs.GetFilter(context.Background(), repository.FilterKey{BlockHash: hash[:], FilterType: repository.RegularFilter})
		if errors.Is(err, repository.ErrFilterNotFound) {
			continue
		}
		if err != nil || !bytes.Equal(f.NBytes, e.filters[hash]) {
			e.failf("the stored filter of block %d is %+v (%v) and not %x", i+1, f, err, e.filters[hash])
			return false
		}
		stored++
	}
	if stored != len(filters) {
		e.failf("the database holds %d filters, %d of them of stored blocks", len(filters), stored)
		return false
	}
	return true
}

// kill ends the daemon, then runs another one that is killed at some point, then a new one.
func (e *e2e) kill(o e2eOp) bool {
	p := e.proc
	for _, x := range e.parties {
		if !x.gone {
			e.leave(x) // they may have heard of anything there is
		}
	}
	p.cmd.Process.Kill()
	<-p.ended
	for _, x := range e.parties {
		if x.ws != nil {
			x.ws.conn.Close()
		}
	}
	if !e.settled() || !p.intact(e, false) {
		return false
	}
	// the doomed one
	dead := make(chan struct{})
	var once sync.Once
	var n atomic.Int64
	p.cmd, p.out, p.ended = daemon(e.procEnv())
	victim := p.cmd.Process
	die := func() {
		victim.Kill()
		once.Do(func() { close(dead) })
	}
	if o.Via != "time" {
		p.wire.SetCrash(func(q string) (bool, bool) {
			if q != "commit" && !strings.Contains(q, "block_header") && !strings.Contains(q, "filter") {
				return false, false
			}
			if (o.Via == "query") == (q == "commit") || n.Add(1)-1 != int64(o.N) {
				return false, false
			}
			die()
			return true, o.Via == "late"
		})
	}
	wait := 800 * time.Millisecond
	if o.Via == "time" {
		wait = time.Duration(o.N) * time.Millisecond
	}
	end := time.After(wait)
	if o.Start > 0 {
		time.Sleep(wait / 8)
		e.mine(o.Start, []string{"inv", "headers", "block"}[o.N%3])
	}
	select {
	case <-dead:
	case <-end:
		victim.Kill()
	case <-p.ended:
	}
	<-p.ended
	p.wire.SetCrash(nil)
	if st := p.cmd.ProcessState.Sys().(syscall.WaitStatus); !st.Signaled() || st.Signal() != syscall.SIGKILL {
		e.failf("the daemon ended by itself (%v):\n%s", p.cmd.ProcessState, p.tail())
		p.cmd = nil
		return false
	}
	p.cmd = nil
	if !e.settled() || !p.intact(e, false) {
		return false
	}
	return p.start(e)
}

// settled waits until the database server has noticed that its client is gone.
func (e *e2e) settled() bool {
	for end := time.Now().Add(patience); e.proc.wire.Conns() > 0; time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			e.failf("HARNESS-ERROR database connections are left")
			return false
		}
	}
	return true
}

// TestC59 runs the daemon's program against a database server, and kills it.
func TestC59(t *testing.T) {
	kit.Rule("C59", "scenarios as of C56 with the built daemon program and a PostgreSQL server that the harness simulates (schema created by the migrations), stopped by SIGTERM, SIGINT or SIGQUIT and killed by SIGKILL at any time, or before, at or after the n-th statement or commit. Non-trivial: at least one kill or restart, and at least 2 events heard of")
	kit.Checks(t, 3, 100, func(rt *rapid.T) {
		ss := rapid.SliceOfN(rapid.Custom(drawProc), 36, 44).Draw(rt, "scenarios")
		kit.Journal(ss)
		var wg sync.WaitGroup
		es := make([]*e2e, len(ss))
		for i := range ss {
			es[i] = newE2e(ss[i])
			wg.Add(1)
			go func() { defer wg.Done(); es[i].run() }()
		}
		wg.Wait()
		for i, e := range es {
			if e.problem != "" {
				rt.Fatalf("scenario %d: %s", i, e.problem)
			}
			events, deaths := 0, 0
			for _, p := range e.parties {
				for _, k := range e.heard(p) {
					events += k
				}
			}
			var ops []string
			for _, o := range ss[i].Ops {
				if o.Kind == "kill" || o.Kind == "restart" {
					deaths++
				}
				kit.Class(o.Kind + " " + map[bool]string{true: o.Via}[o.Kind == "kill"])
				ops = append(ops, fmt.Sprintf("%+v", o))
			}
			kit.Case("C59", deaths > 0 && events >= 2, kit.Key(fmt.Sprintf("%+v%+v", ss[i], *ss[i].Proc)), func() any {
				return map[string]any{"network": e.net.Name, "blocks": len(ss[i].Blocks), "operations": ops, "events": events}
			})
		}
	})
}
