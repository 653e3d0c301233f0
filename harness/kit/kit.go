// Package kit drives the property checks: it wraps rapid, counts what was
// generated, and watches over cases that never end.
package kit

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Thorough tells which tier runs.
var Thorough = os.Getenv("VERIF_TIER") == "thorough"

// N picks the number for the running tier.
func N(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}

// Seed is VERIF_SEED.
func Seed() uint64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return uint64(n)
}

// Shard tells which of how many processes that share the work this one is.
// Enumerated cases are divided among them, random ones are others in each.
func Shard() (i, of int) {
	if _, err := fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &i, &of); err != nil || of < 1 || i < 0 || i >= of {
		return 0, 1
	}
	return i, of
}

// C is one generated case.
type C struct {
	*rapid.T
	nonTrivial bool
	desc       string
	classes    []string
}

// Case records the written-out case, and whether it is non-trivial.
func (c *C) Case(nonTrivial bool, format string, args ...any) {
	c.nonTrivial = nonTrivial
	if len(args) == 0 {
		c.desc = format
	} else {
		c.desc = fmt.Sprintf(format, args...)
	}
}

// Class labels the case for the evidence.
func (c *C) Class(cond bool, label string) {
	if cond {
		c.classes = append(c.classes, label)
	}
}

type result struct {
	Test        string         `json:"test"`
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Seed        uint64         `json:"seed"`
	Failed      bool           `json:"failed"`
	Done        bool           `json:"done"`
	Note        string         `json:"note,omitempty"`

	seen map[uint64]struct{}
}

func (r *result) count(c *C) {
	r.Evaluations++
	for _, cl := range c.classes {
		r.Classes[cl]++
	}
	if c.nonTrivial {
		h := fnv.New64a()
		_, _ = h.Write([]byte(c.desc))
		k := h.Sum64()
		if _, ok := r.seen[k]; !ok {
			r.seen[k] = struct{}{}
			n := len(r.seen)
			if n&(n-1) == 0 && n >= 4 && len(r.Samples) < 8 {
				d := c.desc
				if len(d) > 900 {
					d = d[:900] + " ..."
				}
				r.Samples = append(r.Samples, strings.ToValidUTF8(d, "\\x??"))
			}
		}
	}
}

func (r *result) write() {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		return
	}
	r.Distinct = len(r.seen)
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(err)
	}
	if err = os.WriteFile(filepath.Join(dir, r.Test+".result.json"), b, 0o644); err != nil {
		panic(err)
	}
	if r.Done {
		seen := make([]byte, 0, 8*len(r.seen))
		for k := range r.seen {
			seen = binary.LittleEndian.AppendUint64(seen, k)
		}
		if err = os.WriteFile(filepath.Join(dir, r.Test+".seen"), seen, 0o644); err != nil {
			panic(err)
		}
	}
}

var current atomic.Pointer[result]
var progress atomic.Int64

// Beat tells the watchdog that a long case is making progress.
func Beat() { progress.Add(1) }

func newResult(t *testing.T, rule string) *result {
	r := &result{Test: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]struct{}{}, Samples: []string{}}
	h := fnv.New64a()
	_, _ = fmt.Fprintf(h, "%d/%s", Seed(), t.Name())
	if i, _ := Shard(); i > 0 {
		_, _ = fmt.Fprintf(h, "/%d", i)
	}
	r.Seed = h.Sum64() >> 1
	if r.Seed == 0 {
		r.Seed = 1
	}
	current.Store(r)
	r.write()
	startWatchdog()
	t.Cleanup(func() {
		r.Failed = t.Failed()
		r.Done = true
		r.write()
	})
	return r
}

// Check runs prop on generated cases. rule says how cases are made and what makes one non-trivial.
func Check(t *testing.T, quick, thorough int, rule string, prop func(c *C)) {
	t.Helper()
	if capturing {
		captured = prop
		return
	}
	r := newResult(t, rule)
	n := N(quick, thorough)
	if _, of := Shard(); os.Getenv("VERIF_SPLIT") != "" {
		n = (n + of - 1) / of // The processes share the number of cases.
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(r.Seed, 10))
	set("rapid.shrinktime", "20s")
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt}
		progress.Add(1)
		prop(c)
		r.count(c)
	})
}

// Enum runs prop on every element of a finite space.
func Enum[E any](t *testing.T, rule string, elems []E, prop func(tb Failer, e E) (nonTrivial bool, desc string)) {
	t.Helper()
	r := newResult(t, rule)
	only := os.Getenv("VERIF_ENUM_ONLY")
	shard, of := Shard()
	for i, e := range elems {
		if only != "" && strconv.Itoa(i) != only || only == "" && i%of != shard {
			continue
		}
		progress.Add(1)
		f := &failer{T: t, i: i}
		nt, desc := prop(f, e)
		r.count(&C{nonTrivial: nt, desc: desc})
		if f.Failed() {
			t.Logf("VERIF_ENUM_ONLY=%d reproduces: %s", i, desc)
			t.FailNow()
		}
	}
}

// Failer is what both rapid.T and testing.T offer for reporting.
type Failer interface {
	Helper()
	Fatalf(format string, args ...any)
	Errorf(format string, args ...any)
	Logf(format string, args ...any)
	Failed() bool
}

type failer struct {
	*testing.T
	i int
}

func (f *failer) Fatalf(format string, args ...any) {
	f.T.Helper()
	f.T.Fatalf("[enum case %d] "+format, append([]any{f.i}, args...)...)
}

func set(name, value string) {
	if err := flag.Set(name, value); err != nil {
		panic(err)
	}
}

func cpu() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() uint64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseUint(f[1], 10, 64)
	return n * uint64(os.Getpagesize())
}

var watchOnce sync.Once

// startWatchdog ends the process when one case uses 90 s of CPU, or when for
// 120 one-second ticks nothing at all happens (every goroutine is blocked).
// Neither counts time during which the machine did not let this process run.
func startWatchdog() {
	watchOnce.Do(func() {
		go func() {
			last, cpu0, idle := progress.Load(), cpu(), 0
			lastCPU := cpu0
			for {
				time.Sleep(time.Second)
				p, c := progress.Load(), cpu()
				if p != last {
					last, cpu0, idle = p, c, 0
				}
				if c-lastCPU < 20*time.Millisecond {
					idle++
				} else {
					idle = 0
				}
				lastCPU = c
				why := ""
				switch {
				case c-cpu0 > 90*time.Second:
					why = "a single case used 90 s of CPU without ending"
				case idle > 120:
					why = "a case is blocked: no progress and no CPU use for 120 s"
				case rss() > 8<<30:
					why = "a case used more than 8 GB of memory"
				default:
					continue
				}
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "VERIF-STUCK: %s\n%s\n", why, buf)
				os.Exit(77)
			}
		}()
	})
}

// SortedKeys of a map.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
