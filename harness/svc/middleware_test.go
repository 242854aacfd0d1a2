package svc

import (
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/vulpemventures/neutrino-elements/internal/interface/web-socket/middleware"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

type mwReq struct {
	Method  string
	Path    string
	Body    string
	Status  int
	Chunks  []string
	How     string // plain, flush, hijack, silent
	PanicAt int    // -1 nobody, index of the middleware, or the length of the stack for the handler
	Before  bool   // before or after calling the next one / writing
	Value   int
	Type    string
}

var panicValues = []func(){
	func() { panic("text") },
	func() { panic(errors.New("an error")) },
	func() { panic(42) },
	func() { panic(struct{ a []int }{nil}) },
	func() { panic(http.ErrAbortHandler) },
	func() { var p *mwReq; _ = p.Path },
	func() { var a []int; i := 3; _ = a[i] },
	func() { var m map[string]int; m["x"] = 1 },
	func() { panic(fmt.Errorf("wrapped: %w", io.EOF)) },
	func() { panic("") },
	func() { var e error; panic(e) },
}

// trace is what a request did, in order.
type trace struct {
	mu    sync.Mutex
	steps map[string][]string
}

func (tr *trace) add(id, s string) {
	tr.mu.Lock()
	tr.steps[id] = append(tr.steps[id], s)
	tr.mu.Unlock()
}

// model says what a request should do: the trace, and whether something was written before the recovery.
func mwModel(stack []string, r mwReq) (steps []string, status int, written, escaped bool) {
	status = 200
	var run func(i int) bool // true: panics
	run = func(i int) bool {
		if i == len(stack) {
			if r.PanicAt == i && r.Before {
				steps = append(steps, "handler panics")
				return true
			}
			steps = append(steps, "handler")
			if r.How != "silent" && !written {
				status, written = r.Status, true
			}
			return r.PanicAt == i
		}
		switch stack[i] {
		case "log":
			return run(i + 1)
		case "recover":
			if run(i + 1) {
				if !written {
					status, written = 500, true
				}
			}
			return false
		case "stop":
			steps = append(steps, fmt.Sprint("stop ", i))
			if !written {
				status, written = 299, true
			}
			return false
		}
		steps = append(steps, fmt.Sprint("enter ", i))
		if r.PanicAt == i && r.Before {
			return true
		}
		if run(i + 1) {
			return true
		}
		if r.PanicAt == i {
			return true
		}
		steps = append(steps, fmt.Sprint("leave ", i))
		return false
	}
	escaped = run(0)
	return
}

// TestC53 sends requests through generated stacks of middlewares.
func TestC53(t *testing.T) {
	kit.Rule("C53", "stacks of 0-20 recording, short-cutting, logging and recovering middlewares, 1-4 requests at the same time or one by one, to 1-3 handlers that were wrapped with the same list of middlewares, with panics of any value at any level, through a real HTTP server; non-trivial when a panic was recovered below a recording middleware")
	tr := &trace{steps: map[string][]string{}}
	var current []http.HandlerFunc
	var curMu sync.Mutex
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		curMu.Lock()
		all := current
		curMu.Unlock()
		id := r.Header.Get("X-Case")
		var i int
		fmt.Sscan(id[strings.IndexByte(id, '-')+1:], &i)
		all[i%len(all)](w, r)
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	transport := &http.Transport{DisableKeepAlives: true} // a request is never sent twice
	serial := 0
	kit.Checks(t, 9000, 60000, func(rt *rapid.T) {
		stack := rapid.SliceOfN(rapid.SampledFrom([]string{"rec", "rec", "rec", "log", "log", "recover", "recover", "recover", "stop"}), 0, rapid.SampledFrom([]int{7, 7, 7, 12, 20}).Draw(rt, "deepest")).Draw(rt, "stack")
		reqs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mwReq {
			return mwReq{
				Method:  rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE", "X-ODD"}).Draw(t, "method"),
				Path:    rapid.SampledFrom([]string{"/", "/a/b?q=1&q=2", "/%2F/x%20y?%41=", "/neutrino/subscribe/http"}).Draw(t, "path"),
				Body:    rapid.StringN(0, 20, 60).Draw(t, "body"),
				Status:  rapid.SampledFrom([]int{200, 201, 202, 400, 404, 418, 503}).Draw(t, "status"),
				Chunks:  rapid.SliceOfN(rapid.StringN(0, 30, 90), 0, 3).Draw(t, "chunks"),
				How:     rapid.SampledFrom([]string{"plain", "plain", "plain", "flush", "hijack", "silent"}).Draw(t, "how"),
				PanicAt: rapid.IntRange(-1, len(stack)).Draw(t, "panicAt"),
				Before:  rapid.Bool().Draw(t, "before"),
				Value:   rapid.IntRange(0, len(panicValues)-1).Draw(t, "value"),
				Type:    rapid.SampledFrom([]string{"application/json", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", ""}).Draw(t, "type"),
			}
		}), 1, 4).Draw(rt, "reqs")
		together := rapid.Bool().Draw(rt, "together")
		handlers := rapid.IntRange(1, 3).Draw(rt, "handlers")
		kit.Journal(map[string]any{"stack": stack, "reqs": reqs, "handlers": handlers})
		serial++
		base := fmt.Sprintf("%d-", serial)
		tr.mu.Lock()
		tr.steps = map[string][]string{}
		tr.mu.Unlock()
		find := func(r *http.Request) (string, mwReq) {
			id := r.Header.Get("X-Case")
			var i int
			fmt.Sscan(strings.TrimPrefix(id, base), &i)
			return id, reqs[i]
		}
		handler := func(which int, w http.ResponseWriter, r *http.Request) {
			id, q := find(r)
			if i := strings.TrimPrefix(id, base); i != "" && int(i[0]-'0')%handlers != which {
				tr.add(id, fmt.Sprintf("the handler %d answers instead of the one it is for", which))
			}
			if q.PanicAt == len(stack) && q.Before {
				tr.add(id, "handler panics")
				panicValues[q.Value]()
			}
			tr.add(id, "handler")
			b, err := io.ReadAll(r.Body)
			if r.Method != q.Method || r.URL.RequestURI() != q.Path || string(b) != q.Body || err != nil || r.Header.Get("X-Other") != "kept" || r.Header.Get("Content-Type") != q.Type {
				tr.add(id, fmt.Sprintf("the request was altered: %s %s %q %v", r.Method, r.URL.RequestURI(), b, err))
			}
			switch q.How {
			case "hijack":
				c, rw, err := w.(http.Hijacker).Hijack()
				if err != nil {
					tr.add(id, "hijack: "+err.Error())
					return
				}
				body := strings.Join(q.Chunks, "")
				fmt.Fprintf(rw, "HTTP/1.1 %d Hijacked\r\nConnection: close\r\nX-Made: by hand\r\nContent-Length: %d\r\n\r\n%s", q.Status, len(body), body)
				rw.Flush()
				c.Close()
			case "silent":
			default:
				w.Header().Set("X-Made", "by hand")
				w.WriteHeader(q.Status)
				for _, c := range q.Chunks {
					io.WriteString(w, c)
					if q.How == "flush" {
						w.(http.Flusher).Flush()
					}
				}
			}
			if q.PanicAt == len(stack) {
				panicValues[q.Value]()
			}
		}
		svc := middleware.NewMiddlewareService()
		var mws []middleware.Middleware
		for i, k := range stack {
			switch k {
			case "log":
				mws = append(mws, svc.LoggingMiddleware)
			case "recover":
				mws = append(mws, svc.PanicRecovery)
			case "stop":
				mws = append(mws, func(next http.HandlerFunc) http.HandlerFunc {
					return func(w http.ResponseWriter, r *http.Request) {
						tr.add(r.Header.Get("X-Case"), fmt.Sprint("stop ", i))
						w.WriteHeader(299)
						io.WriteString(w, "stopped")
					}
				})
			default:
				mws = append(mws, func(next http.HandlerFunc) http.HandlerFunc {
					return func(w http.ResponseWriter, r *http.Request) {
						id, q := find(r)
						tr.add(id, fmt.Sprint("enter ", i))
						if q.PanicAt == i && q.Before {
							panicValues[q.Value]()
						}
						next(w, r)
						if q.PanicAt == i {
							panicValues[q.Value]()
						}
						tr.add(id, fmt.Sprint("leave ", i))
					}
				})
			}
		}
		var wrapped []http.HandlerFunc
		for k := 0; k < handlers; k++ {
			wrapped = append(wrapped, svc.WrapHandlerWithMiddlewares(func(w http.ResponseWriter, r *http.Request) { handler(k, w, r) }, mws...))
		}
		curMu.Lock()
		current = wrapped
		curMu.Unlock()
		interesting := false
		problems := make([]string, len(reqs))
		one := func(i int) {
			q := reqs[i]
			id := fmt.Sprintf("%s%d", base, i)
			steps, status, written, escaped := mwModel(stack, q)
			panics := q.PanicAt >= 0
			req, err := http.NewRequest(q.Method, srv.URL+q.Path, strings.NewReader(q.Body))
			if err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}
			req.Header.Set("X-Case", id)
			req.Header.Set("X-Other", "kept")
			req.Header.Set("Content-Type", q.Type)
			resp, err := transport.RoundTrip(req)
			var body []byte
			if err == nil {
				body, _ = io.ReadAll(resp.Body)
				resp.Body.Close()
			}
			tr.mu.Lock()
			got := append([]string(nil), tr.steps[id]...)
			tr.mu.Unlock()
			if escaped { // nobody recovers it: the server ends the connection
				return
			}
			// the leaving steps of outer middlewares may come after the answer: checked below
			want := strings.Join(steps, ", ")
			if g := strings.Join(got, ", "); !strings.HasPrefix(want, g) {
				problems[i] = fmt.Sprintf("stack %v, request %+v: ran %v instead of %v", stack, q, got, steps)
				return
			}
			if q.How == "hijack" && q.PanicAt >= 0 && written {
				return // nothing else can be said once the connection was taken over
			}
			if err != nil {
				problems[i] = fmt.Sprintf("stack %v, request %+v: no answer: %v", stack, q, err)
				return
			}
			if resp.StatusCode != status {
				problems[i] = fmt.Sprintf("stack %v, request %+v: status %d instead of %d", stack, q, resp.StatusCode, status)
				return
			}
			ranHandler := strings.Contains(want, "handler") && !strings.Contains(want, "handler panics")
			if !panics && ranHandler {
				text := strings.Join(q.Chunks, "")
				if q.How == "silent" {
					text = ""
				} else if resp.Header.Get("X-Made") != "by hand" {
					problems[i] = fmt.Sprintf("stack %v, request %+v: the headers of the answer were altered: %v", stack, q, resp.Header)
				}
				if string(body) != text {
					problems[i] = fmt.Sprintf("stack %v, request %+v: the body %q was altered: %q", stack, q, text, body)
				}
			}
		}
		if together {
			var wg sync.WaitGroup
			for i := range reqs {
				wg.Add(1)
				go func() { defer wg.Done(); one(i) }()
			}
			wg.Wait()
		} else {
			for i := range reqs {
				one(i)
			}
		}
		// the service must still be there, and each request must have run its whole stack once
		for i, q := range reqs {
			steps, _, _, escaped := mwModel(stack, q)
			want := strings.Join(steps, ", ")
			got := ""
			for n := 0; n < 5000; n++ {
				tr.mu.Lock()
				got = strings.Join(tr.steps[fmt.Sprintf("%s%d", base, i)], ", ")
				tr.mu.Unlock()
				if got == want {
					break
				}
				if !strings.HasPrefix(want, got) {
					break
				}
				pause()
			}
			if problems[i] == "" && got != want {
				problems[i] = fmt.Sprintf("stack %v, request %+v: ran [%s] instead of [%s]", stack, q, got, want)
			}
			if !escaped && q.PanicAt >= 0 && strings.Contains(want, "enter") && !strings.HasSuffix(want, "panics") {
				interesting = true
			}
		}
		kit.Case("C53", interesting, kit.Key(fmt.Sprint(stack, reqs, together, handlers)), func() any { return map[string]any{"stack": stack, "requests": reqs} })
		for _, p := range problems {
			if p != "" {
				rt.Fatalf("%s", p)
			}
		}
	})
}
