package svc

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/handler"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// patience is how long (in real time) something that must happen is waited for.
const patience = 40 * time.Second

// fakeNotify is a notification service that accepts the valid subscriptions whose descriptor does not start with "refuse".
type fakeNotify struct {
	events chan application.SubscriberEventReport
	errs   chan application.SubscriberErrorReport
	mu     sync.Mutex
	subs   []application.Subscriber // accepted
	asked  []application.Subscriber
	known  map[application.SubscriberID]bool
	unsubs map[application.SubscriberID]int
	stops  int
	serial uint64
	dead   atomic.Bool // a report was not taken
	wg     sync.WaitGroup
	eager  func(s application.Subscriber)
}

func newFakeNotify() *fakeNotify {
	return &fakeNotify{
		events: make(chan application.SubscriberEventReport), errs: make(chan application.SubscriberErrorReport),
		known: map[application.SubscriberID]bool{}, unsubs: map[application.SubscriberID]int{},
	}
}

func (f *fakeNotify) Start() error { return nil }
func (f *fakeNotify) Stop()        { f.mu.Lock(); f.stops++; f.mu.Unlock() }

func (f *fakeNotify) EventReport() chan application.SubscriberEventReport { return f.events }
func (f *fakeNotify) ErrorReport() chan application.SubscriberErrorReport { return f.errs }

func (f *fakeNotify) verdict(s application.Subscriber) error {
	if strings.HasPrefix(s.WalletDescriptor, "refuse") {
		return errors.New("refused: " + s.WalletDescriptor)
	}
	if s.WalletDescriptor == "" || s.BlockHeight < 0 || s.BlockHeight > math.MaxInt32 || len(s.Events) == 0 {
		return errors.New("refused: invalid")
	}
	for _, e := range s.Events {
		if e != scanner.UnspentUtxo && e != scanner.SpentUtxo {
			return errors.New("refused: invalid event")
		}
	}
	return nil
}

func (f *fakeNotify) Subscribe(s application.Subscriber) error {
	err := f.verdict(s)
	f.mu.Lock()
	f.asked = append(f.asked, s)
	if err == nil {
		f.subs = append(f.subs, s)
		f.known[s.ID] = true
	}
	f.mu.Unlock()
	if err == nil && strings.Contains(s.WalletDescriptor, "eager") && f.eager != nil {
		f.eager(s)
	}
	return err
}

func (f *fakeNotify) UnSubscribe(s application.Subscriber) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.unsubs[s.ID]++
	if !f.known[s.ID] {
		return errors.New("refused: subscriber not found")
	}
	delete(f.known, s.ID)
	return nil
}

func (f *fakeNotify) subOf(desc string) (out []application.Subscriber) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, s := range f.subs {
		if s.WalletDescriptor == desc {
			out = append(out, s)
		}
	}
	return
}

// event hands an event to the handler and returns its transaction id.
func (f *fakeNotify) event(id application.SubscriberID, ev scanner.EventType) (string, bool) {
	f.mu.Lock()
	f.serial++
	n := f.serial
	f.mu.Unlock()
	tx := kit.SmallTx(n, nil, kit.ScriptN(n))
	h := chainhash.Hash(kit.DHash([]byte{byte(n)}))
	return kit.TxIDStr(tx), f.send(func(stop <-chan time.Time) bool {
		select {
		case f.events <- application.SubscriberEventReport{SubscriberID: id, EventType: ev, BlockHeight: int(n), BlockHash: &h, Transaction: tx}:
			return true
		case <-stop:
			return false
		}
	})
}

func (f *fakeNotify) fail(id application.SubscriberID, text string) bool {
	return f.send(func(stop <-chan time.Time) bool {
		select {
		case f.errs <- application.SubscriberErrorReport{SubscriberID: id, ErrorMsg: errors.New(text)}:
			return true
		case <-stop:
			return false
		}
	})
}

func (f *fakeNotify) send(try func(<-chan time.Time) bool) bool {
	if f.dead.Load() { // waiting again would tell nothing
		return false
	}
	timer := time.NewTimer(patience)
	defer timer.Stop()
	ok := try(timer.C)
	if !ok {
		f.dead.Store(true)
	}
	return ok
}

// hooks is the server of all webhooks; what it gets is sorted by case.
type hooks struct {
	srv  *httptest.Server
	mu   sync.Mutex
	got  map[string][]post // by path and query
	gate map[string]chan struct{}
}

type post struct {
	Method, Type string
	Body         []byte
}

var (
	theHooks  *hooks
	hooksOnce sync.Once
)

func getHooks() *hooks {
	hooksOnce.Do(func() {
		h := &hooks{got: map[string][]post{}, gate: map[string]chan struct{}{}}
		h.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			key := r.URL.RequestURI()
			h.mu.Lock()
			h.got[key] = append(h.got[key], post{r.Method, r.Header.Get("Content-Type"), b})
			gate := h.gate[key]
			h.mu.Unlock()
			switch {
			case strings.Contains(key, "slow"):
				if gate != nil {
					<-gate
				}
			case strings.Contains(key, "fail"):
				w.WriteHeader(500)
			case strings.Contains(key, "reset"):
				if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
					c.Close()
				}
			}
		}))
		theHooks = h
	})
	return theHooks
}

func (h *hooks) posts(key string) []post {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]post(nil), h.got[key]...)
}

func (h *hooks) forget(prefix string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for k := range h.got {
		if strings.HasPrefix(k, prefix) {
			delete(h.got, k)
		}
	}
	for k := range h.gate {
		if strings.HasPrefix(k, prefix) {
			delete(h.gate, k)
		}
	}
}

// httpReq is a request to the webhook API.
type httpReq struct {
	Kind     string
	Endpoint int
	Height   int
	Events   []string // JSON values
	Cut      int
	Extra    int
	Order    int
}

var eventNames = map[string]scanner.EventType{`"unspentUtxo"`: scanner.UnspentUtxo, `"spentUtxo"`: scanner.SpentUtxo, "0": scanner.UnspentUtxo, "1": scanner.SpentUtxo}

var goodEvents = [][]string{{`"unspentUtxo"`}, {`"unspentUtxo"`}, {`"spentUtxo"`}, {`"unspentUtxo"`, `"spentUtxo"`}, {`"spentUtxo"`, `"unspentUtxo"`}, {"0"}, {"1"}, {"0", "1"}, {`"unspentUtxo"`, "1"}}
var badEvents = [][]string{{`"unspentutxo2"`}, {`""`}, {`"unspentUtxo"`, `"x"`}, {"7"}, {"-1"}, {"0", "2"}, {"{}"}, {"1.5"}, {"true"}, {}, {`"0"`}, {"18446744073709551616"}}

func drawHttpReq(t *rapid.T, endpoints int) httpReq {
	r := httpReq{
		Kind:     rapid.SampledFrom([]string{"good", "good", "good", "good", "good", "eager", "refuse", "badevents", "noaction", "action", "unregister", "negheight", "bigheight", "nodesc", "cut", "junk", "types"}).Draw(t, "kind"),
		Endpoint: rapid.IntRange(0, endpoints-1).Draw(t, "endpoint"),
		Height:   rapid.OneOf(rapid.IntRange(0, 20), rapid.SampledFrom([]int{math.MaxInt32, 1 << 24})).Draw(t, "height"),
		Events:   rapid.SampledFrom(goodEvents).Draw(t, "events"),
		Order:    rapid.IntRange(0, 23).Draw(t, "order"),
		Extra:    rapid.IntRange(0, 4).Draw(t, "extra"),
		Cut:      rapid.IntRange(0, 1000).Draw(t, "cut"),
	}
	switch r.Kind {
	case "badevents":
		r.Events = rapid.SampledFrom(badEvents).Draw(t, "badevents")
	case "negheight":
		r.Height = -1 - r.Height
	case "bigheight":
		r.Height = math.MaxInt32 + 1 + r.Height
	}
	return r
}

func quote(s string) string { b, _ := json.Marshal(s); return string(b) }

// body is the request as sent.
func (r httpReq) body(desc, endpoint string) []byte {
	action := `"register"`
	switch r.Kind {
	case "action":
		action = []string{`"Register"`, `""`, `"registr"`, `"unsubscribe"`, `" register"`}[r.Cut%5]
	case "unregister":
		action = `"unregister"`
	case "nodesc":
		desc = ""
	}
	fields := []string{
		`"actionType":` + action,
		`"eventTypes":[` + strings.Join(r.Events, ",") + "]",
		`"descriptorWallet": ` + quote(desc),
		fmt.Sprintf(`"startBlockHeight" :%d`, r.Height),
		`"endpointUrl":` + quote(endpoint),
	}
	if r.Kind == "types" {
		i := r.Cut % 5
		bad := [][]string{{"7", "{}", "[]", "true"}, {`"unspentUtxo"`, "0", "{}", "true"}, {"12", "[]", "{}", "false"}, {`"0"`, "1.5", "[]", "{}"}, {"1", "[]", "{}", "true"}}[i]
		k, _, _ := strings.Cut(fields[i], ":")
		fields[i] = k + ":" + bad[r.Cut/5%4]
	}
	if r.Kind == "noaction" {
		fields = fields[1:]
	}
	if r.Extra == 1 {
		fields = append(fields, `"extra":{"a":[1,2,{"eventTypes":[9]}],"actionType":"unregister"}`)
	}
	sort.SliceStable(fields, func(a, b int) bool {
		return kit.DHash([]byte(fmt.Sprint(r.Order, fields[a][:4])))[0] < kit.DHash([]byte(fmt.Sprint(r.Order, fields[b][:4])))[0]
	})
	b := []byte("{" + strings.Join(fields, ",") + "}")
	if r.Extra == 2 {
		b = append([]byte(" \n\t"), b...)
	}
	switch r.Kind {
	case "cut":
		return b[:r.Cut%len(b)]
	case "junk":
		return [][]byte{nil, []byte("register"), []byte("[]"), []byte("null"), []byte("{}"), []byte(`"register"`), []byte("12"), {0xff, 0xfe, 0}, []byte(`{"actionType":"register"`), append([]byte("x"), b...), []byte("{'actionType':'register'}")}[r.Cut%11]
	}
	return b
}

func (r httpReq) accepted() bool { return r.Kind == "good" || r.Kind == "eager" }

// answer reads the one answer of the API: success, or an error.
func answer(status int, body []byte) (ok bool, problem string) {
	if status >= 400 {
		return false, ""
	}
	if status != 200 {
		return false, fmt.Sprintf("status %d", status)
	}
	d := json.NewDecoder(bytes.NewReader(body))
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		return false, fmt.Sprintf("the answer %q is not JSON: %v", body, err)
	}
	if _, err := d.Token(); err != io.EOF {
		return false, fmt.Sprintf("more than one answer: %q", body)
	}
	msg, isMsg := m["message"].(string)
	text, isErr := m["errorMessage"].(string)
	if len(m) != 1 || isMsg == isErr || msg+text == "" {
		return false, fmt.Sprintf("the answer %q is neither a success nor an error", body)
	}
	return isMsg, ""
}

type httpOp struct {
	Kind  string
	Reqs  []httpReq
	Reg   int
	Ev    int
	Count int
}

// urlShapes are ends of webhook URLs.
var urlShapes = []string{"", "/", "?q=1", "/Hook/UPPER", "/a%2Fb/", "//x/./y", "?q=a%20b&q=&Z", "/?", "?url=http://h/%3Fx#no", "/%C3%A9;v=1", ".JSON", "?a+b=c%2Bd"}

var endpointKinds = []string{"ok", "ok", "ok", "slow", "fail", "reset", "closed", "nonsense"}

// TestC51 drives the webhook API with all kinds of requests and its events with failing and slow endpoints.
func TestC51(t *testing.T) {
	kit.Rule("C51", "histories of well-formed, rejected and malformed requests (some at the same time), events, error reports and events for unknown subscribers, with working, slow, failing and closed endpoints; non-trivial when an event was posted after a rejected request or a report that could not be delivered")
	hk := getHooks()
	caseNo := 0
	kit.Checks(t, 1000, 8000, func(rt *rapid.T) {
		caseNo++
		kinds := rapid.SliceOfN(rapid.SampledFrom(endpointKinds), 1, 4).Draw(rt, "endpoints")
		ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) httpOp {
			op := httpOp{Kind: rapid.SampledFrom([]string{"request", "request", "request", "event", "event", "event", "error", "unknown", "strange", "burst"}).Draw(t, "op")}
			if op.Kind == "request" {
				op.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) httpReq { return drawHttpReq(t, len(kinds)) }), 1, 3).Draw(t, "reqs")
				return op
			}
			op.Reg = rapid.IntRange(0, 20).Draw(t, "reg")
			op.Ev = rapid.IntRange(0, 1).Draw(t, "ev")
			op.Count = rapid.IntRange(1, 3).Draw(t, "count")
			if op.Kind == "burst" {
				op.Kind = "event"
				if rapid.IntRange(0, 15).Draw(t, "big burst") == 0 {
					op.Count = rapid.IntRange(20, 400).Draw(t, "count")
				}
			}
			return op
		}), 1, 14).Draw(rt, "ops")
		kit.Journal(map[string]any{"endpoints": kinds, "ops": ops})
		problem, interesting := httpCase(hk, caseNo, kinds, ops)
		kit.Case("C51", interesting, kit.Key(kinds, fmt.Sprint(ops)), func() any { return map[string]any{"endpoints": kinds, "ops": ops} })
		if problem != "" {
			rt.Fatalf("%s", problem)
		}
	})
}

func httpCase(hk *hooks, caseNo int, kinds []string, ops []httpOp) (problem string, interesting bool) {
	prefix := fmt.Sprintf("/c%d/", caseNo)
	defer hk.forget(prefix)
	fn := newFakeNotify()
	h := handler.NewDescriptorWalletNotifierHandler(fn)
	h.Start()
	var mu sync.Mutex
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	gate := make(chan struct{})
	type reg struct {
		id  application.SubscriberID
		url string
		key string
		end int
	}
	var regs []reg
	want := map[string]map[string]int{} // by key, by body
	expect := func(key, body string) {
		mu.Lock()
		defer mu.Unlock()
		if want[key] == nil {
			want[key] = map[string]int{}
		}
		want[key][body]++
	}
	eventBody := func(ev scanner.EventType, txid string) string {
		return fmt.Sprintf("%s %s", []string{"unspentUtxo", "spentUtxo"}[ev], txid)
	}
	// every registration has an URL of its own, on one of the endpoints
	keyOf := map[string]string{} // by descriptor
	urlOf := func(end, n int) (string, string) {
		key := fmt.Sprintf("%s%s/%d/r%d", prefix, kinds[end], end, n) + urlShapes[(n+len(ops))%len(urlShapes)]
		whole := key
		key, _, _ = strings.Cut(key, "#") // which is not sent
		switch kinds[end] {
		case "closed":
			return "http://127.0.0.1:1" + key, ""
		case "nonsense":
			return []string{"", "::", "not an url", "http://", "ftp://x/y", "http://127.0.0.1:0/"}[n%6], ""
		}
		hk.mu.Lock()
		if kinds[end] == "slow" {
			hk.gate[key] = gate
		}
		hk.mu.Unlock()
		return hk.srv.URL + whole, key
	}
	fn.eager = func(s application.Subscriber) {
		mu.Lock()
		key := keyOf[s.WalletDescriptor]
		mu.Unlock()
		txid, ok := fn.event(s.ID, s.Events[0])
		if !ok {
			fail("the reports are not taken any more (an event found while registering)")
			return
		}
		if key != "" {
			expect(key, eventBody(s.Events[0], txid))
		}
	}
	bad := false // a rejected request or an undeliverable report came before
	serial := 0
	for _, op := range ops {
		if problem != "" {
			break
		}
		switch op.Kind {
		case "request":
			var wg sync.WaitGroup
			type sent struct {
				r              httpReq
				desc, url, key string
				rec            *httptest.ResponseRecorder
			}
			var all []*sent
			for _, r := range op.Reqs {
				serial++
				desc := fmt.Sprintf("%s wallet %d.%d", r.Kind, caseNo, serial)
				if r.Extra >= 3 { // as long as wallets of many keys are
					desc += strings.Repeat(" key\\\"", r.Cut*(r.Extra-2))
				}
				url, key := urlOf(r.Endpoint, serial)
				mu.Lock()
				keyOf[desc] = key
				mu.Unlock()
				s := &sent{r, desc, url, key, httptest.NewRecorder()}
				all = append(all, s)
				req := httptest.NewRequest("POST", "/neutrino/subscribe/http", bytes.NewReader(r.body(desc, url)))
				wg.Add(1)
				go func() {
					defer wg.Done()
					h.HandleSubscriptionRequestHttp(s.rec, req)
				}()
			}
			if stuck := kit.Guarded(patience, wg.Wait); stuck != "" {
				fail("a request was not answered:\n%s", repoOf(stuck))
				break
			}
			for _, s := range all {
				ok, p := answer(s.rec.Code, s.rec.Body.Bytes())
				if p != "" {
					fail("request %s: %s", s.r.body(s.desc, s.url), p)
				}
				subs := fn.subOf(s.desc)
				if s.r.Kind == "nodesc" {
					subs = nil
				}
				if ok != s.r.accepted() {
					fail("request %s: answered %q, accepted registrations: %d", s.r.body(s.desc, s.url), s.rec.Body, len(subs))
				}
				if !s.r.accepted() {
					bad = true
					if len(subs) > 0 {
						fail("the request %s was answered with an error but registered", s.r.body(s.desc, s.url))
					}
					continue
				}
				if len(subs) != 1 {
					fail("the request %s made %d registrations", s.r.body(s.desc, s.url), len(subs))
					continue
				}
				var events []scanner.EventType
				for _, e := range s.r.Events {
					events = append(events, eventNames[e])
				}
				if subs[0].BlockHeight != s.r.Height || fmt.Sprint(subs[0].Events) != fmt.Sprint(events) {
					fail("the request %s registered %+v", s.r.body(s.desc, s.url), subs[0])
				}
				for _, r := range regs {
					if r.id == subs[0].ID {
						fail("two registrations share an identity")
					}
				}
				regs = append(regs, reg{subs[0].ID, s.url, s.key, s.r.Endpoint})
			}
		case "event", "error":
			if len(regs) == 0 {
				continue
			}
			r := regs[len(regs)-1-op.Reg%len(regs)]
			for i := 0; i < op.Count; i++ {
				if op.Kind == "error" {
					fn.mu.Lock()
					fn.serial++
					text := fmt.Sprintf("error \"%d\"\n", fn.serial)
					fn.mu.Unlock()
					if !fn.fail(r.id, text) {
						fail("the reports are not taken any more")
					}
					if r.key != "" {
						expect(r.key, "error "+text)
					}
				} else {
					ev := scanner.EventType((op.Ev + i) % 2)
					txid, ok := fn.event(r.id, ev)
					if !ok {
						fail("the reports are not taken any more")
					}
					if r.key != "" {
						expect(r.key, eventBody(ev, txid))
						if bad {
							interesting = true
						}
					}
				}
				if kinds[r.end] != "ok" {
					bad = true
				}
			}
		case "unknown":
			bad = true
			var ok bool
			if op.Ev == 0 {
				_, ok = fn.event(subID(op.Reg), scanner.UnspentUtxo)
			} else {
				ok = fn.fail(subID(op.Reg), "for nobody")
			}
			if !ok {
				fail("the reports are not taken any more")
			}
		case "strange": // an event of a type that does not exist
			bad = true
			id := subID(op.Reg)
			if len(regs) > 0 && op.Ev == 0 {
				id = regs[op.Reg%len(regs)].id
			}
			if _, ok := fn.event(id, scanner.EventType(5+op.Count)); !ok {
				fail("the reports are not taken any more")
			}
		}
	}
	// the last report has been taken only when another one is
	if problem == "" {
		if !fn.fail(subID(100), "fence") || !fn.fail(subID(100), "fence") {
			fail("the reports are not taken any more")
		}
	}
	// everything arrives, whatever the other endpoints do
	deadline := time.Now().Add(patience)
	for problem == "" {
		missing := ""
		for key, bodies := range want {
			got := map[string]int{}
			for _, p := range hk.posts(key) {
				got[decodePost(p)]++
			}
			for b := range bodies {
				if got[b] == 0 {
					missing = fmt.Sprintf("%q was not posted to %s (posted there: %v)", b, key, got)
				}
			}
		}
		if missing == "" {
			break
		}
		if time.Now().After(deadline) {
			fail("%s", missing)
		}
		time.Sleep(time.Millisecond)
	}
	if problem == "" {
		time.Sleep(2 * time.Millisecond)
		hk.mu.Lock()
		for key, posts := range hk.got {
			if !strings.HasPrefix(key, prefix) {
				continue
			}
			got := map[string]int{}
			for _, p := range posts {
				got[decodePost(p)]++
			}
			for b, c := range got {
				if want[key][b] == 0 {
					mu.Lock()
					if problem == "" {
						problem = fmt.Sprintf("%q was posted to %s, which should not get it", b, key)
					}
					mu.Unlock()
				} else if c > want[key][b] && (strings.Contains(key, "/ok/") || strings.Contains(key, "/slow/")) {
					mu.Lock()
					if problem == "" {
						problem = fmt.Sprintf("%q was posted %d times to %s", b, c, key)
					}
					mu.Unlock()
				}
			}
		}
		hk.mu.Unlock()
	}
	close(gate)
	if stuck := kit.Guarded(patience, h.Stop); stuck != "" && problem == "" {
		problem = "Stop did not return:\n" + repoOf(stuck)
	}
	return
}

// decodePost names what was posted.
func decodePost(p post) string {
	if p.Method != "POST" || !strings.HasPrefix(p.Type, "application/json") {
		return fmt.Sprintf("a %s of type %s: %q", p.Method, p.Type, p.Body)
	}
	d := json.NewDecoder(bytes.NewReader(p.Body))
	var m map[string]string
	if err := d.Decode(&m); err != nil {
		return fmt.Sprintf("undecodable %q", p.Body)
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Sprintf("several messages %q", p.Body)
	}
	return nameMessage(m, p.Body)
}

func nameMessage(m map[string]string, raw []byte) string {
	if text, ok := m["errorMessage"]; ok && len(m) == 1 {
		return "error " + text
	}
	if len(m) == 2 && m["eventType"] != "" && m["txId"] != "" {
		return m["eventType"] + " " + m["txId"]
	}
	return fmt.Sprintf("strange %q", raw)
}

// repoOf keeps the goroutines of the code under test.
func repoOf(stacks string) string {
	var out []string
	for _, g := range strings.Split(stacks, "\n\n") {
		if strings.Contains(g, "/repo/") {
			out = append(out, g)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n\n")
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}
