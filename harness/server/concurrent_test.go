package server

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

var stamp = regexp.MustCompile(`\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [-+\w]+`)

// paths are the pages and charts of a site and some that don't exist.
func (s *site) paths() []string {
	out := []string{"/go-slog/", "/go-slog/index.html", "/go-slog/warnings.html", "/go-slog/guts.html", "/go-slog/home.svg", "/go-slog/scripts.js", "/go-slog/style.css",
		"/go-slog/handler/Nobody.html", "/go-slog/test/Bench.Nothing.html", "/go-slog/test/Verify.SomeOther.html", "/go-slog/scores/None/summary.html", "/go-slog/scores/None/0/chart.svg",
		"/go-slog/chart/Nobody/Nanos.svg", "/go-slog/text/none/display.html", "/go-slog/nothing", "/go-slog/error.html"}
	for _, h := range s.handlers {
		out = append(out, "/go-slog/handler/"+escape(h.tag)+".html")
		for _, item := range []string{"Nanos", "MemAllocs", "MemBytes", "GbPerSec", "Runs", "MbPerSec", "TbPerSec"} {
			out = append(out, "/go-slog/chart/"+escape(h.tag)+"/"+item+".svg")
		}
	}
	for _, tag := range append(append(s.benchTests(), s.warned("Verify")...), s.warned("Bench")...) {
		out = append(out, "/go-slog/test/"+escape(tag)+".html", "/go-slog/chart/"+escape(tag)+"/Nanos.svg")
	}
	for _, k := range []string{"Default", "Simple", "Size", "Dedup", "ReplAttr"} {
		out = append(out, "/go-slog/scores/"+k+"/summary.html")
		for _, size := range []string{"0", "1", "2", "3"} {
			out = append(out, "/go-slog/scores/"+k+"/"+size+"/chart.svg")
		}
	}
	for _, n := range kit.SortedKeys(s.texts) {
		out = append(out, "/go-slog/text/"+n+"/display.html")
	}
	return out
}

func clean(r reply) reply {
	r.body = stamp.ReplaceAllString(r.body, "TIME")
	return r
}

func TestP02_Concurrent(t *testing.T) {
	kit.Check(t, 25, 1500, siteRule+"once asked for all pages and charts one after the other and then for all again, once for all in the reverse order, and once, built with the race detector, asked for them in random order and more than once by eight clients at the same time; "+
		"every answer must be the same as alone, and no data race be found; non-trivial: two handlers with results and a warning", func(c *kit.C) {
		s := genSite(c)
		recs := 0
		for _, h := range s.handlers {
			recs += len(h.recs)
		}
		c.Case(len(s.fromBench()) > 1 && recs > 0, "%s", s)
		c.Logf("%s", s)
		p, out := s.start()
		if p == nil {
			c.Fatalf("the server ends:\n%s", out)
		}
		want := map[string]reply{}
		ask := func(at, when string) {
			r, err := get(at)
			if err != nil {
				defer p.stop()
				c.Fatalf("asking for %s fails: %v\n%s", at, err, p.tail())
			}
			if before, found := want[at]; !found {
				want[at] = clean(r)
			} else if got := clean(r); got != before {
				defer p.stop()
				c.Fatalf("%s is different %s:\n%s", at, when, difference(got, before))
			}
			kit.Beat()
		}
		backward := rapid.Permutation(s.paths()).Draw(c.T, "sequence")
		for i := range backward {
			ask(backward[len(backward)-1-i], "")
		}
		for _, at := range s.paths() {
			ask(at, "when it is asked for again")
		}
		p.stop()
		// The other way round, whatever came later comes earlier.
		if p, out = s.start(); p == nil {
			c.Fatalf("the server ends:\n%s", out)
		}
		for _, at := range backward {
			ask(at, "in another order")
		}
		p.stop()
		if p, out = s.startProgram("server.race"); p == nil {
			c.Fatalf("the server ends:\n%s", out)
		}
		defer p.stop()
		var jobs []string
		paths := s.paths()
		for _, at := range paths {
			jobs = append(jobs, at)
			if !strings.Contains(at, "chart.svg") {
				jobs = append(jobs, at)
			}
		}
		sort.Strings(jobs)
		order := rapid.Permutation(indices(len(jobs))).Draw(c.T, "order")
		if rapid.Bool().Draw(c.T, "same together") {
			order = indices(len(jobs))
		}
		queue := make(chan string, len(jobs))
		for _, i := range order {
			queue <- jobs[i]
		}
		close(queue)
		var wg sync.WaitGroup
		var mutex sync.Mutex
		var wrong []string
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for at := range queue {
					r, err := get(at)
					kit.Beat()
					mutex.Lock()
					if err != nil {
						wrong = append(wrong, at+" fails: "+err.Error())
					} else if got := clean(r); got != want[at] {
						wrong = append(wrong, at+" differs:\n"+difference(got, want[at]))
					}
					stop := len(wrong) > 0
					mutex.Unlock()
					if stop {
						return
					}
				}
			}()
		}
		wg.Wait()
		if text := p.output(); strings.Contains(text, "DATA RACE") {
			i := strings.Index(text, "WARNING: DATA RACE")
			report := text[i:min(len(text), i+2500)]
			fmt.Fprintln(os.Stderr, report) // May not happen again.
			c.Fatalf("data race in the server:\n%s", report)
		}
		if len(wrong) > 0 {
			sort.Strings(wrong)
			fmt.Fprintln(os.Stderr, wrong[0])
			c.Fatalf("%s\n%s", wrong[0], p.tail())
		}
	})
}

func difference(got, want reply) string {
	if got.status != want.status || got.kind != want.kind {
		return strings.Join([]string{"status or type", got.kind, want.kind}, " ")
	}
	i := 0
	for i < min(len(got.body), len(want.body)) && got.body[i] == want.body[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-100):min(len(s), i+100)] }
	return cut(got.body) + "\n-----\n" + cut(want.body)
}
