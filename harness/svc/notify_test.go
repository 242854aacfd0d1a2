// Package svc holds the checks of the daemon's services (C50-C57).
package svc

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

type watchCall struct {
	id     uuid.UUID
	desc   string
	events []scanner.EventType
	start  int
}

// item is a watch item of either type.
type item struct{ ev scanner.EventType }

func (i item) Bytes() []byte                          { return []byte{0x51} }
func (i item) Match(tx *transaction.Transaction) bool { return true }
func (i item) EventType() scanner.EventType           { return i.ev }

// fakeScanner accepts every descriptor that does not start with "bad".
type fakeScanner struct {
	mu      sync.Mutex
	reports chan scanner.Report
	calls   []watchCall
	queue   []scanner.Report
	wake    chan struct{}
	serial  uint64
	sent    map[string]*emission // by transaction id
	closing bool
	done    chan struct{}
}

type emission struct {
	Watch  uuid.UUID
	Ev     scanner.EventType
	Height uint32
	Hash   chainhash.Hash
	TxID   string
	must   bool
	may    bool
	sub    application.SubscriberID
	got    int
}

func newFakeScanner() *fakeScanner {
	return &fakeScanner{reports: make(chan scanner.Report), wake: make(chan struct{}, 1), sent: map[string]*emission{}, done: make(chan struct{})}
}

func (s *fakeScanner) Start() (<-chan scanner.Report, error) {
	go s.pump()
	return s.reports, nil
}

func (s *fakeScanner) pump() {
	defer close(s.done)
	for range s.wake {
		for {
			s.mu.Lock()
			if len(s.queue) == 0 || s.closing {
				s.mu.Unlock()
				break
			}
			r := s.queue[0]
			s.queue = s.queue[1:]
			s.mu.Unlock()
			s.reports <- r
		}
	}
	close(s.reports)
}

func (s *fakeScanner) Stop()                              {}
func (s *fakeScanner) Watch(...scanner.ScanRequestOption) {}

func (s *fakeScanner) emit(id uuid.UUID, ev scanner.EventType, height uint32) *emission {
	s.mu.Lock()
	s.serial++
	tx := kit.SmallTx(s.serial, nil, kit.ScriptN(s.serial))
	e := &emission{Watch: id, Ev: ev, Height: height, Hash: chainhash.Hash(kit.DHash([]byte(fmt.Sprint("block", s.serial)))), TxID: kit.TxIDStr(tx)}
	s.sent[e.TxID] = e
	h := e.Hash
	s.queue = append(s.queue, scanner.Report{
		Transaction: tx, BlockHash: &h, BlockHeight: height,
		Request: &scanner.ScanRequest{ClientID: id, StartHeight: height, Item: item{ev}, IsPersistent: true},
	})
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
	return e
}

func (s *fakeScanner) WatchDescriptorWallet(id uuid.UUID, desc string, events []scanner.EventType, start int) error {
	s.mu.Lock()
	s.calls = append(s.calls, watchCall{id, desc, append([]scanner.EventType(nil), events...), start})
	s.mu.Unlock()
	if strings.Contains(desc, "slow") {
		time.Sleep(time.Second)
	}
	if strings.HasPrefix(desc, "bad") {
		return errors.New("refused " + desc)
	}
	if strings.Contains(desc, "eager") { // found before the request even returns
		e := s.emit(id, events[0], uint32(start))
		s.mu.Lock()
		e.must = true
		s.mu.Unlock()
		time.Sleep(time.Millisecond)
	}
	return nil
}

// callOf finds the call made for a descriptor (descriptors are unique).
func (s *fakeScanner) callsOf(desc string) (out []watchCall) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.calls {
		if c.desc == desc {
			out = append(out, c)
		}
	}
	return
}

// consumer reads the two report channels as the handlers do.
type consumer struct {
	mu     sync.Mutex
	events []application.SubscriberEventReport
	errs   []application.SubscriberErrorReport
	pause  chan bool
	quit   chan struct{}
}

func (c *consumer) run(n application.NotificationService) {
	paused := false
	for {
		ev, er := n.EventReport(), n.ErrorReport()
		if paused {
			ev, er = nil, nil
		}
		select {
		case paused = <-c.pause:
		case e, ok := <-ev:
			if !ok {
				return
			}
			c.mu.Lock()
			c.events = append(c.events, e)
			c.mu.Unlock()
		case e, ok := <-er:
			if !ok {
				return
			}
			c.mu.Lock()
			c.errs = append(c.errs, e)
			c.mu.Unlock()
		case <-c.quit:
			return
		}
	}
}

func subID(i int) application.SubscriberID {
	var id application.SubscriberID
	h := kit.DHash([]byte(fmt.Sprint("subscriber", i)))
	copy(id[:], h[:])
	return id
}

type notifyOp struct {
	Kind   string
	Sub    int
	Height int
	Events []int
	Watch  int
	Ev     int
	Count  int
	Again  int // 1 + which earlier descriptor is given again
	Sleep  time.Duration
}

var subKinds = []string{"good", "good", "good", "good", "slow", "eager", "bad", "badslow",
	"nodesc", "negheight", "bigheight", "noevents", "strangeevents"}

func drawNotifyOp(t *rapid.T) notifyOp {
	op := notifyOp{Sub: rapid.IntRange(0, 4).Draw(t, "sub")}
	switch k := rapid.IntRange(0, 19).Draw(t, "op"); {
	case k < 7:
		op.Kind = rapid.SampledFrom(subKinds).Draw(t, "kind")
		op.Height = rapid.OneOf(rapid.IntRange(0, 10), rapid.SampledFrom([]int{0, math.MaxInt32, 1 << 20})).Draw(t, "height")
		op.Events = rapid.SampledFrom([][]int{{0}, {0}, {1}, {0, 1}, {1, 0}}).Draw(t, "events")
		if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			op.Again = rapid.IntRange(1, 5).Draw(t, "which")
		}
		switch op.Kind {
		case "negheight":
			op.Height = -1 - rapid.SampledFrom([]int{0, 1, 5, math.MaxInt32 - 1, math.MaxInt - 1}).Draw(t, "below")
		case "bigheight":
			op.Height = math.MaxInt32 + 1 + rapid.SampledFrom([]int{0, 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt32 * 4}).Draw(t, "above")
		case "noevents":
			op.Events = nil
		case "strangeevents":
			op.Events = rapid.SampledFrom([][]int{{2}, {-1}, {0, 2}, {7, 1}, {0, 1, 256}}).Draw(t, "events")
		}
	case k < 10:
		op.Kind = "unsub"
		op.Sub = rapid.IntRange(0, 6).Draw(t, "who") // 5 never subscribes, 6 is the zero id
	case k < 17:
		op.Kind = "emit"
		op.Watch = rapid.IntRange(-1, 20).Draw(t, "watch")
		op.Ev = rapid.IntRange(0, 1).Draw(t, "ev")
		op.Height = rapid.OneOf(rapid.IntRange(0, 10), rapid.SampledFrom([]int{math.MaxInt32, 1 << 20})).Draw(t, "height")
		op.Count = rapid.IntRange(1, 3).Draw(t, "count")
	default:
		op.Kind = rapid.SampledFrom([]string{"pause", "pause", "resume", "settle", "sleep"}).Draw(t, "flow")
		op.Sleep = rapid.SampledFrom([]time.Duration{time.Second, 20 * time.Second, 5 * time.Minute, 3 * time.Hour, 100 * time.Hour}).Draw(t, "sleep")
	}
	return op
}

type subState struct {
	desc string
	id   uuid.UUID
	sub  int
	live bool
	bad  bool
}

// TestC50 drives the notification service with histories of subscriptions, events and slow consumers.
func TestC50(t *testing.T) {
	kit.Rule("C50", "histories of valid, invalid and unusable subscriptions, unsubscriptions and events with a consumer that may pause, with hours between them and with the same wallet watched again; non-trivial when an event reached a subscriber after a bad subscription or an unsubscription of another")
	kit.Checks(t, 8000, 300000, func(rt *rapid.T) {
		ops := rapid.SliceOfN(rapid.Custom(drawNotifyOp), 1, 25).Draw(rt, "ops")
		kit.Journal(ops)
		var problem string
		var interesting bool
		_, stuck := kit.Bubble(t, func() { problem, interesting = notifyCase(ops) })
		kit.Case("C50", interesting, kit.Key(fmt.Sprint(ops)), func() any { return ops })
		if problem != "" {
			rt.Fatalf("%s", problem)
		}
		if stuck != "" {
			if text, dead := kit.Deadlocked(stuck); dead {
				rt.Fatalf("deadlock: %s", text)
			}
			panic("HARNESS-ERROR the case did not end:\n" + stuck)
		}
	})
}

func notifyCase(ops []notifyOp) (problem string, interesting bool) {
	sc := newFakeScanner()
	n := application.NewNotificationService(sc)
	if err := n.Start(); err != nil {
		return "Start: " + err.Error(), false
	}
	co := &consumer{pause: make(chan bool), quit: make(chan struct{})}
	go co.run(n)
	paused := false
	defer func() {
		if paused {
			co.pause <- false
		}
		time.Sleep(20 * time.Second)
		n.Stop()
		synctest.Wait()
		close(co.quit)
		sc.mu.Lock()
		sc.closing = true
		sc.mu.Unlock()
		// a service that is stopped does not read any more
		go func() {
			for range sc.reports {
			}
		}()
		close(sc.wake)
		<-sc.done
		synctest.Wait()
	}()
	var subs []*subState // in the order of the subscriptions
	known := map[int]bool{}
	fuzzy := map[int]bool{} // had an unusable descriptor since it was last known for sure
	wantErrs := map[string]application.SubscriberID{}
	seenErr := 0
	hurt := false // something bad or an unsubscription happened
	fail := func(f string, a ...any) {
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	// check compares what the consumer got with what it should have
	check := func(final bool) {
		co.mu.Lock()
		defer co.mu.Unlock()
		sc.mu.Lock()
		defer sc.mu.Unlock()
		for _, e := range co.events {
			if e.Transaction == nil {
				fail("an event without a transaction was reported")
				continue
			}
			em := sc.sent[kit.TxIDStr(e.Transaction)]
			if em == nil {
				fail("an event about an unknown transaction was reported")
				continue
			}
			em.got++
			switch {
			case em.got > 1:
				fail("the event %s was reported %d times", em.TxID, em.got)
			case !em.must && !em.may:
				fail("an event was reported to %x for a watch that nobody has", e.SubscriberID)
			case e.SubscriberID != em.sub:
				fail("the event of subscriber %x was reported to %x", em.sub, e.SubscriberID)
			case e.EventType != em.Ev || e.BlockHeight != int(em.Height) || e.BlockHash == nil || *e.BlockHash != em.Hash:
				fail("an event of type %d at height %d in block %s was reported as type %d, height %d, block %v", em.Ev, em.Height, em.Hash, e.EventType, e.BlockHeight, e.BlockHash)
			}
			if em.must && hurt {
				interesting = true
			}
		}
		co.events = nil
		for ; seenErr < len(co.errs); seenErr++ {
			e := co.errs[seenErr]
			if e.ErrorMsg == nil {
				fail("an error report without an error")
				continue
			}
			found := ""
			for text, id := range wantErrs {
				if strings.Contains(e.ErrorMsg.Error(), text) {
					found = text
					if e.SubscriberID != id {
						fail("the error of subscriber %x was reported to %x", id, e.SubscriberID)
					}
				}
			}
			if found == "" {
				fail("unexpected or repeated error report: %v", e.ErrorMsg)
			}
			delete(wantErrs, found)
		}
		if final {
			for _, em := range sc.sent {
				if em.must && em.got == 0 {
					fail("an event of subscriber %x was not reported", em.sub)
				}
			}
			for text, id := range wantErrs {
				fail("the error %q of subscriber %x was not reported", text, id)
			}
		}
	}
	call := func(what string, limit time.Duration, f func() error) (error, bool) {
		c := make(chan error, 1)
		go func() { c <- f() }()
		select {
		case err := <-c:
			return err, true
		case <-time.After(limit):
			fail("%s did not return", what)
			return nil, false
		}
	}
	serial := 0
	nameOf := func(k int) application.SubscriberID {
		if k == 6 {
			return application.SubscriberID{}
		}
		return subID(k)
	}
	resume := func() {
		if paused {
			co.pause <- false
			paused = false
		}
		synctest.Wait()
	}
	for _, op := range ops {
		if problem != "" {
			return
		}
		switch op.Kind {
		case "pause":
			if !paused {
				synctest.Wait()
				check(false)
				co.pause <- true
				paused = true
			}
		case "resume":
			resume()
			check(false)
		case "settle":
			resume()
			time.Sleep(5 * time.Second)
			synctest.Wait()
			check(true)
		case "sleep": // nothing is forgotten meanwhile
			time.Sleep(op.Sleep)
			synctest.Wait()
			check(!paused)
		case "emit":
			nobody := kit.DHash([]byte("nobody"))
			id := uuid.UUID(nobody[:16])
			var st *subState
			if op.Watch >= 0 && len(subs) > 0 {
				st = subs[len(subs)-1-op.Watch%len(subs)]
				id = st.id
			} else if op.Watch >= 10 {
				id = uuid.UUID{}
			}
			// the same id may be in use by another subscription of the same subscriber
			var owner *subState
			for _, s := range subs {
				if s.live && s.id == id {
					owner = s
				}
			}
			for i := 0; i < op.Count; i++ {
				em := sc.emit(id, scanner.EventType(op.Ev), uint32(op.Height))
				sc.mu.Lock()
				if owner != nil {
					em.sub = subID(owner.sub)
					em.must = owner == st
					em.may = true
				} else if st != nil && st.bad { // never happens, no matter what becomes of it
					em.sub = subID(st.sub)
					em.may = true
				}
				sc.mu.Unlock()
			}
			if !paused {
				synctest.Wait()
				check(true)
			}
		case "unsub":
			err, ok := call("UnSubscribe", 5*time.Second, func() error { return n.UnSubscribe(application.Subscriber{ID: nameOf(op.Sub)}) })
			if !ok {
				return
			}
			if err == nil && !known[op.Sub] && !fuzzy[op.Sub] {
				fail("un-subscribing an unknown subscriber succeeded")
			}
			if err != nil && known[op.Sub] {
				fail("un-subscribing a known subscriber: %v", err)
			}
			if known[op.Sub] {
				hurt = true
				known[op.Sub] = false
				for _, s := range subs {
					if s.sub == op.Sub && s.live {
						s.live = false
					}
				}
				// what was found but not delivered yet may or may not be
				sc.mu.Lock()
				for _, em := range sc.sent {
					if em.sub == subID(op.Sub) && em.got == 0 {
						em.must, em.may = false, true
					}
				}
				sc.mu.Unlock()
			}
			fuzzy[op.Sub] = false
		default: // a subscription
			serial++
			desc := fmt.Sprintf("%s descriptor %d", op.Kind, serial)
			if op.Kind == "nodesc" {
				desc = ""
			}
			// the same wallet again, for any subscriber
			if op.Again > 0 && op.Kind == "good" {
				var good []string
				for _, s := range subs {
					if strings.HasPrefix(s.desc, "good") {
						good = append(good, s.desc)
					}
				}
				if len(good) > 0 {
					desc = good[op.Again%len(good)]
				}
			}
			former := len(sc.callsOf(desc))
			id := subID(op.Sub)
			var events []scanner.EventType
			for _, e := range op.Events {
				events = append(events, scanner.EventType(e))
			}
			invalid := map[string]bool{"nodesc": true, "negheight": true, "bigheight": true, "noevents": true, "strangeevents": true}[op.Kind]
			bad := strings.HasPrefix(op.Kind, "bad")
			if bad {
				resume() // it may wait for its error to be taken
				wantErrs[desc] = id
				hurt = true
			}
			ncalls := len(sc.calls)
			before := map[*emission]bool{}
			sc.mu.Lock()
			for _, e := range sc.sent {
				before[e] = true
			}
			sc.mu.Unlock()
			// the events found before the subscription returns are its own
			err, ok := call("Subscribe", 10*time.Second, func() error {
				return n.Subscribe(application.Subscriber{ID: id, BlockHeight: op.Height, Events: events, WalletDescriptor: desc})
			})
			if !ok {
				return
			}
			synctest.Wait()
			if invalid {
				hurt = true
				if err == nil {
					fail("an invalid subscription (%s, height %d, events %v) was accepted", op.Kind, op.Height, op.Events)
				}
				if len(sc.calls) != ncalls {
					fail("an invalid subscription (%s) was passed to the scanner", op.Kind)
				}
				continue
			}
			if err != nil && !bad {
				fail("a valid subscription was refused: %v", err)
				continue
			}
			time.Sleep(2 * time.Second) // for a service that asks the scanner later
			synctest.Wait()
			calls := sc.callsOf(desc)
			if len(calls) != former+1 {
				fail("the scanner was asked %d times to watch a descriptor, %d times before the last subscription", len(calls), former)
				continue
			}
			c := calls[former]
			if c.start != op.Height || fmt.Sprint(c.events) != fmt.Sprint(events) {
				fail("the scanner was asked to watch %v from %d instead of %v from %d", c.events, c.start, events, op.Height)
			}
			if bad {
				if err != nil { // told right away
					delete(wantErrs, desc)
				}
				if !known[op.Sub] {
					fuzzy[op.Sub] = true
				}
				subs = append(subs, &subState{desc: desc, id: c.id, sub: op.Sub, bad: true})
				continue
			}
			for _, s := range subs {
				if s.live && s.id == c.id && s.sub != op.Sub {
					fail("two subscribers share the id of their requests")
				}
			}
			known[op.Sub] = true
			subs = append(subs, &subState{desc: desc, id: c.id, sub: op.Sub, live: true})
			sc.mu.Lock()
			for _, e := range sc.sent {
				if !before[e] && e.Watch == c.id {
					e.sub = id
				}
			}
			sc.mu.Unlock()
			if !paused {
				check(true)
			}
		}
	}
	resume()
	time.Sleep(10 * time.Second)
	synctest.Wait()
	check(true)
	return
}

// TestC50Concurrent has many subscribers come, hear of events and go at the same time.
func TestC50Concurrent(t *testing.T) {
	kit.Rule("C50Concurrent", "2-8 goroutines subscribing, receiving events and un-subscribing at the same time, under the race detector; non-trivial when at least two received events")
	kit.Checks(t, 250, 8000, func(rt *rapid.T) {
		type step struct {
			Kind  string
			Count int
		}
		plans := rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) step {
			return step{rapid.SampledFrom([]string{"good", "good", "eager", "slow", "bad", "nodesc", "unsub"}).Draw(t, "kind"), rapid.IntRange(0, 3).Draw(t, "count")}
		}), 1, 6), 2, 8).Draw(rt, "plans")
		kit.Journal(plans)
		var mu sync.Mutex
		var problem string
		fail := func(f string, a ...any) {
			mu.Lock()
			defer mu.Unlock()
			if problem == "" {
				problem = fmt.Sprintf(f, a...)
			}
		}
		got := map[string]int{} // by sub and txid
		receivers := map[int]bool{}
		_, stuck := kit.Bubble(t, func() {
			sc := newFakeScanner()
			n := application.NewNotificationService(sc)
			if err := n.Start(); err != nil {
				fail("Start: %v", err)
				return
			}
			co := &consumer{pause: make(chan bool), quit: make(chan struct{})}
			go co.run(n)
			want := map[string]int{}
			wantErrs := map[string]application.SubscriberID{}
			var wg sync.WaitGroup
			for i := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					id := subID(i)
					known := false
					for j, st := range plans[i] {
						if st.Kind == "unsub" {
							time.Sleep(time.Second) // everything found so far was delivered
							if err := n.UnSubscribe(application.Subscriber{ID: id}); (err == nil) != known {
								fail("UnSubscribe of a subscriber (known: %v): %v", known, err)
							}
							known = false
							continue
						}
						desc := fmt.Sprintf("%s descriptor %d/%d", st.Kind, i, j)
						if st.Kind == "nodesc" {
							desc = ""
						}
						if st.Kind == "bad" {
							if !known { // a failed subscriber may count as known: not decided here
								continue
							}
							mu.Lock()
							wantErrs[desc] = id
							mu.Unlock()
						}
						err := n.Subscribe(application.Subscriber{ID: id, BlockHeight: j, Events: []scanner.EventType{0, 1}, WalletDescriptor: desc})
						if (err != nil) != (st.Kind == "nodesc") {
							fail("Subscribe %s: %v", st.Kind, err)
							continue
						}
						if err != nil || st.Kind == "bad" {
							continue
						}
						known = true
						time.Sleep(3 * time.Second)
						calls := sc.callsOf(desc)
						if len(calls) != 1 {
							fail("the scanner was asked %d times to watch a descriptor", len(calls))
							continue
						}
						sc.mu.Lock()
						for _, e := range sc.sent {
							if e.Watch == calls[0].id && e.must {
								e.must = false
								mu.Lock()
								want[fmt.Sprintf("%x %s", id, e.TxID)] = 1
								mu.Unlock()
							}
						}
						sc.mu.Unlock()
						for k := 0; k < st.Count; k++ {
							e := sc.emit(calls[0].id, scanner.EventType(k%2), uint32(j))
							mu.Lock()
							want[fmt.Sprintf("%x %s", id, e.TxID)] = 1
							receivers[i] = true
							mu.Unlock()
						}
						time.Sleep(time.Millisecond)
					}
				}()
			}
			wg.Wait()
			time.Sleep(10 * time.Second)
			synctest.Wait()
			n.Stop()
			synctest.Wait()
			close(co.quit)
			synctest.Wait()
			for _, e := range co.events {
				got[fmt.Sprintf("%x %s", e.SubscriberID, kit.TxIDStr(e.Transaction))]++
			}
			for k, c := range got {
				if want[k] != c {
					fail("the event %s was reported %d times, expected %d", k, c, want[k])
				}
			}
			for k := range want {
				if got[k] == 0 {
					fail("the event %s was not reported", k)
				}
			}
			for _, e := range co.errs {
				text := strings.TrimPrefix(e.ErrorMsg.Error(), "refused ")
				if id, ok := wantErrs[text]; !ok || id != e.SubscriberID {
					fail("unexpected error %v of %x", e.ErrorMsg, e.SubscriberID)
				}
				delete(wantErrs, text)
			}
			for text := range wantErrs {
				fail("the error of %q was not reported", text)
			}
			sc.mu.Lock()
			sc.closing = true
			sc.mu.Unlock()
			go func() {
				for range sc.reports {
				}
			}()
			close(sc.wake)
			<-sc.done
			synctest.Wait()
		})
		kit.Case("C50Concurrent", len(receivers) > 1, kit.Key(fmt.Sprint(plans)), func() any { return plans })
		if problem != "" {
			rt.Fatalf("%s", problem)
		}
		if stuck != "" {
			if text, dead := kit.Deadlocked(stuck); dead {
				rt.Fatalf("deadlock: %s", text)
			}
			panic("HARNESS-ERROR the case did not end:\n" + stuck)
		}
	})
}

func pause() { time.Sleep(2 * time.Millisecond) }
