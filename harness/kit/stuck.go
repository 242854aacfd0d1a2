package kit

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// StuckExit is the exit status of a run that was given up because code under test is stuck.
const StuckExit = 67

var (
	running   atomic.Int64 // when the case that runs was started, 0: none
	watchOnce sync.Once

	repoFrame = regexp.MustCompile(`(?m)^github\.com/vulpemventures/neutrino-elements/(pkg|internal|cmd)/`)
	kitFrame  = regexp.MustCompile(`(?m)^github\.com/vulpemventures/neutrino-elements/verifharness/`)
	header    = regexp.MustCompile(`^goroutine (\d+)[^\[]*\[([^\],]*)(?:, (\d+) minutes)?`)
)

// watch ends the process when a case does not end: code under test that waits for a lock for a minute, or, called by
// the harness, waits for anything for two or keeps running for one, is stuck. Cases take seconds.
func watch() {
	watchOnce.Do(func() {
		go hunger()
		go func() {
			busy := map[string]int{}
			for {
				time.Sleep(5 * time.Second)
				at := running.Load()
				if at == 0 || time.Now().UnixNano()-at < int64(90*time.Second) {
					busy = map[string]int{}
					continue
				}
				runtime.GC() // waiting times are counted from a collection on
				buf := make([]byte, 16<<20)
				all := strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n")
				if running.Load() != at {
					continue
				}
				seen := map[string]int{}
				for _, g := range all {
					m := header.FindStringSubmatch(g)
					if m == nil || !repoFrame.MatchString(g) {
						continue
					}
					minutes, _ := strconv.Atoi(m[3])
					state := m[2]
					lock := strings.Contains(state, "Mutex") || strings.Contains(state, "semacquire")
					ours := kitFrame.MatchString(stackOnly(g))
					if lock && minutes >= 1 || ours && minutes >= 2 {
						stuck(g)
					}
					if ours && (state == "running" || state == "runnable") {
						if seen[m[1]] = busy[m[1]] + 1; seen[m[1]] >= 12 {
							stuck(g)
						}
					}
				}
				busy = seen
			}
		}()
	})
}

// memoryLimit is far more than any case needs.
const memoryLimit = 5 << 30

// hunger ends the process when a case takes memory without end.
func hunger() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		if n := sample[0].Value.Uint64() + sample[1].Value.Uint64(); running.Load() != 0 && n > memoryLimit {
			debug.SetGCPercent(20)
			runtime.GC()
			metrics.Read(sample)
			if n = sample[0].Value.Uint64() + sample[1].Value.Uint64(); n > memoryLimit {
				fmt.Printf("\nSTUCK: a case holds %d MB and goes on\n", n>>20)
				os.Exit(StuckExit)
			}
		}
	}
}

// stackOnly leaves out who made the goroutine.
func stackOnly(g string) string {
	if i := strings.Index(g, "\ncreated by "); i >= 0 {
		return g[:i]
	}
	return g
}

func stuck(g string) {
	fmt.Printf("\nSTUCK: code under test does not go on\n%s\n", g)
	os.Exit(StuckExit)
}
