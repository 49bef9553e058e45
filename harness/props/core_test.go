// Package props holds the executable properties of direct-connect/go-dc.
//
// Every Test<ID>_* function is one generated-input search for property <ID>; the driver
// (/verif/check) runs each of them in its own process.
package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- per-case collector

// C is one generated case.
type C struct {
	*rapid.T
	key        strings.Builder
	nontrivial bool
	labels     []string
}

// Key appends to the description of the generated case. It identifies the case when counting
// distinct ones and is what the evidence shows as a sample.
func (c *C) Key(format string, args ...interface{}) {
	if c.key.Len() < 1<<16 {
		fmt.Fprintf(&c.key, format, args...)
	}
}

// NonTrivial marks the case as non-trivial by the rule of the test.
func (c *C) NonTrivial(v bool) {
	if v {
		c.nontrivial = true
	}
}

// Label counts the case in a named class.
func (c *C) Label(format string, args ...interface{}) {
	c.labels = append(c.labels, fmt.Sprintf(format, args...))
}

type stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	WallS       float64        `json:"wall_s"`

	// Hashes of distinct cases, so that shards can be merged.
	Hashes []uint64 `json:"hashes,omitempty"`

	seen map[uint64]struct{}
}

const maxHashes = 1 << 21

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func (s *stats) add(c *C) {
	s.Evaluations++
	for _, l := range c.labels {
		s.Labels[l]++
	}
	if !c.nontrivial {
		return
	}
	s.Nontrivial++
	key := c.key.String()
	h := fnv.New64a()
	h.Write([]byte(key))
	v := h.Sum64()
	if _, ok := s.seen[v]; !ok {
		if len(s.seen) < maxHashes {
			s.seen[v] = struct{}{}
		}
		s.Distinct = len(s.seen)
		// keep samples from different moments of the run
		if n := s.Distinct; n == 1 || n == 10 || n == 100 || n == 1000 {
			s.Samples = append(s.Samples, clip(fmt.Sprintf("%q", key), 400))
		}
	}
}

// check runs f over n generated cases (scaled by VERIF_MULT) and records what was covered.
func check(t *testing.T, n int, rule string, f func(c *C)) {
	if captured != nil {
		*captured = f
		return
	}
	t.Helper()
	if v := os.Getenv("VERIF_MULT"); v != "" {
		m, err := strconv.ParseFloat(v, 64)
		if err == nil && m > 0 {
			n = int(float64(n) * m)
		}
		if n < 1 {
			n = 1
		}
	}
	if os.Getenv("VERIF_CHECKS_FIXED") == "" {
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
	}
	st := &stats{Test: t.Name(), Rule: rule, Labels: map[string]int{}, seen: map[uint64]struct{}{}}
	start := time.Now()
	defer func() {
		st.WallS = time.Since(start).Seconds()
		dir := os.Getenv("VERIF_STATS")
		if dir == "" {
			t.Logf("evaluations=%d distinct_nontrivial=%d wall=%.2fs labels=%v", st.Evaluations, st.Distinct, st.WallS, st.Labels)
			for _, s := range st.Samples {
				t.Logf("sample: %s", s)
			}
			return
		}
		for h := range st.seen {
			st.Hashes = append(st.Hashes, h)
		}
		data, _ := json.Marshal(st)
		_ = os.WriteFile(filepath.Join(dir, t.Name()+".json"), data, 0644)
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt}
		beginCase()
		defer endCase()
		f(c)
		st.add(c)
	})
}

// ---------------------------------------------------------------- watchdog

var (
	caseActive int32
	caseCPU    int64 // process CPU time at the start of the case, ns
	caseTicks  int64 // watchdog ticks since the start of the case
)

func cpuTime() int64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func beginCase() {
	atomic.StoreInt64(&caseCPU, cpuTime())
	atomic.StoreInt64(&caseTicks, 0)
	atomic.StoreInt32(&caseActive, 1)
}

func endCase() { atomic.StoreInt32(&caseActive, 0) }

func rss() int64 {
	data, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(data))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const (
	maxCaseCPU   = 60 * time.Second
	blockedTicks = 2 * 120 // ticks of 500 ms
	maxRSS       = 6 << 30
)

func abort(why string) {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	fmt.Printf("\nPROPERTY-FAIL: %s\n%s\n", why, buf)
	os.Exit(3)
}

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		if r := rss(); r > maxRSS {
			abort(fmt.Sprintf("memory use of one generated case exploded (%d bytes resident)", r))
		}
		if atomic.LoadInt32(&caseActive) == 0 {
			continue
		}
		ticks := atomic.AddInt64(&caseTicks, 1)
		used := time.Duration(cpuTime() - atomic.LoadInt64(&caseCPU))
		if used > maxCaseCPU {
			abort(fmt.Sprintf("one generated case does not terminate (%v of CPU time)", used))
		}
		if ticks > blockedTicks && used < 5*time.Second {
			abort("one generated case is blocked forever")
		}
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	if os.Getenv("VERIF_NO_WATCHDOG") == "" {
		go watchdog()
	}
	os.Exit(m.Run())
}

// pick draws an index below n, all of them equally likely (generators of rapid prefer small ones).
func pick(t *rapid.T, label string, n int) int {
	bits := 3
	for 1<<(bits-3) < n {
		bits++
	}
	return rapid.Custom(func(t *rapid.T) int {
		v := 0
		for i := 0; i < bits; i++ {
			v *= 2
			if rapid.Bool().Draw(t, "bit") {
				v++
			}
		}
		return v % n
	}).Draw(t, label)
}

func sortStrings(s []string) { sort.Strings(s) }

func itoa(v int64) string { return strconv.FormatInt(v, 10) }

func utoa(v uint64) string { return strconv.FormatUint(v, 10) }
