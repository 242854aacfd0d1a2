// Package kit holds what the checks share: evidence recording, case counts and
// seeds, generators, reference encoders and fakes.
package kit

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

func init() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	debug.SetTraceback("all")
	logrus.StandardLogger().ExitFunc = func(code int) {
		fmt.Printf("EXIT: the code under test ended the process (status %d)\n%s\n", code, debug.Stack())
		os.Exit(68)
	}
}

// Thorough reports whether the deep tier was asked for.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed is the seed the whole run derives from.
func Seed() uint64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return uint64(n)
}

func subSeed(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", Seed(), name)
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

type rec struct {
	mu       sync.Mutex
	evals    int64
	distinct map[[16]byte]struct{}
	rules    []string
	samples  []any
	perRule  map[string]int
	classes  map[string]int64
	notes    []string
}

var theRec = &rec{distinct: map[[16]byte]struct{}{}, perRule: map[string]int{}, classes: map[string]int64{}}

// Case records one generated case of a sub-check.
func Case(sub string, nontrivial bool, key string, sample func() any) {
	r := theRec
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.classes[sub+"/cases"]++
	if nontrivial {
		h := sha256.Sum256([]byte(sub + "\x00" + key))
		var k [16]byte
		copy(k[:], h[:])
		if _, ok := r.distinct[k]; !ok {
			r.distinct[k] = struct{}{}
			r.classes[sub+"/distinct_nontrivial"]++
			if r.perRule[sub] < 3 && sample != nil {
				r.perRule[sub]++
				r.samples = append(r.samples, map[string]any{"check": sub, "case": sample()})
			}
		}
	}
}

// Class counts a case class.
func Class(name string) {
	theRec.mu.Lock()
	theRec.classes[name]++
	theRec.mu.Unlock()
}

// Rule states how cases of a sub-check are made and what makes one non-trivial.
func Rule(sub, text string) {
	theRec.mu.Lock()
	theRec.rules = append(theRec.rules, sub+": "+text)
	theRec.mu.Unlock()
}

// KnownFinding reports that a listed finding still shows itself.
func KnownFinding(property, what string) {
	fmt.Printf("\nKNOWN-FINDING: property=%s %s\n", property, what)
}

// Main is each package's TestMain: it writes the evidence when the run ends.
func Main(m *testing.M) {
	flag.Parse()
	start := time.Now()
	code := m.Run()
	if out := os.Getenv("VERIF_EVIDENCE_OUT"); out != "" {
		r := theRec
		r.mu.Lock()
		sort.Strings(r.rules)
		b, err := json.Marshal(map[string]any{
			"evaluations": r.evals, "distinct_nontrivial": len(r.distinct),
			"rule": strings.Join(r.rules, " | "), "samples": r.samples, "classes": r.classes,
			"test_s": time.Since(start).Seconds(),
		})
		r.mu.Unlock()
		if err == nil {
			err = os.WriteFile(out, b, 0o644)
		}
		if err != nil {
			fmt.Println("evidence:", err)
			if code == 0 {
				code = 2
			}
		}
	}
	os.Exit(code)
}

// Checks runs a property over n (quick) or deep (thorough) generated cases.
func Checks(t *testing.T, n, deep int, prop func(*rapid.T)) {
	t.Helper()
	if Thorough() {
		n = deep
	}
	if s := os.Getenv("VERIF_CHECKS_SCALE"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		n = int(float64(n)*f) + 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(subSeed(t.Name()), 10)))
	must(flag.Set("rapid.shrinktime", "20s"))
	watch()
	defer running.Store(0)
	rapid.Check(t, func(rt *rapid.T) {
		running.Store(time.Now().UnixNano())
		prop(rt)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Journal writes down the case about to run, for failures that end the process.
func Journal(v any) {
	out := os.Getenv("VERIF_JOURNAL_OUT")
	if out == "" {
		return
	}
	b, _ := json.Marshal(v)
	_ = os.WriteFile(out, b, 0o644)
}

// Guarded runs f and gives up after limit of real time. A stuck call is reported with all
// goroutine stacks, so that the caller can tell a deadlock in the code under test from a slow machine.
func Guarded(limit time.Duration, f func()) (stuck string) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return ""
	case <-time.After(limit):
		buf := make([]byte, 64<<20)
		return string(buf[:runtime.Stack(buf, true)])
	}
}

// U64 hashes parts to a number, for key building.
func Key(parts ...any) string {
	h := sha256.New()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			var l [8]byte
			binary.LittleEndian.PutUint64(l[:], uint64(len(v)))
			h.Write(l[:])
			h.Write(v)
		default:
			fmt.Fprintf(h, "%v|", v)
		}
	}
	return string(h.Sum(nil))
}
