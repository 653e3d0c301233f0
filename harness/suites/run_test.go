package suites

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"os"
	"strings"
	"testing"

	bench "github.com/madkins23/go-slog/bench/tests"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"github.com/madkins23/go-slog/verify/tests"
	"github.com/stretchr/testify/suite"
	"pgregory.net/rapid"
)

var underTest *bench.SlogBenchmarkSuite

// BenchmarkDeviant has to have a name, it is the tag.
func BenchmarkDeviant(b *testing.B) { bench.Run(b, underTest) }

// output runs something and returns what it prints.
func output(fn func()) string {
	f, err := os.CreateTemp("", "stdout")
	if err != nil {
		panic("VERIF-HARNESS-ERROR " + err.Error())
	}
	defer func() { _ = os.Remove(f.Name()); _ = f.Close() }()
	stdout := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = stdout }()
	fn()
	os.Stdout = stdout
	out, err := os.ReadFile(f.Name())
	if err != nil {
		panic("VERIF-HARNESS-ERROR " + err.Error())
	}
	return string(out)
}

// TestB01_Run runs both suites and reads what they print, as the commands do.
func TestB01_Run(t *testing.T) {
	kit.Check(t, 300, 8000, rule+"the benchmark suite and the verification suite run against them, once each; what they print with their warnings is parsed as benchmark and verification data; the results and warnings parsed must be those of the two suites: "+
		"a result for every scenario, the warnings recorded, by the right tests, and no warnings from benchmarks without deviations; non-trivial: a deviation", func(c *kit.C) {
		running.Lock()
		defer running.Unlock()
		handler := rapid.Bool().Draw(c.T, "makes handlers")
		dev, warns := genDeviations(c, handler)
		if rapid.IntRange(0, 3).Draw(c.T, "none") == 0 {
			dev, warns = map[string]bool{}, nil
		}
		name := rapid.SampledFrom([]string{"verif/deviant", "my own handler", "x", "a [b] c"}).Draw(c.T, "name")
		summary := rapid.SampledFrom([]string{"", "A handler.", "Two\nlines", "\n indented\n\n* list\n"}).Draw(c.T, "summary")
		links := map[string]string{}
		if rapid.Bool().Draw(c.T, "link") {
			links["Docs"] = "https://example.com/d?a=1&b=2"
		}
		handlerFn := func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return newDeviant(w, o, dev) }
		loggerFn := func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(handlerFn(w, o)) }
		var creator infra.Creator
		if handler {
			creator = infra.NewCreator(name, handlerFn, nil, summary, links)
		} else {
			creator = infra.NewCreator(name, nil, loggerFn, summary, links)
		}
		c.Logf("deviations %s, handler %v, name %q", list(dev), handler, name)

		// What the benchmarks print.
		underTest = bench.NewSlogBenchmarkSuite(creator)
		_ = flag.Set("test.benchtime", "1x")
		_ = flag.Set("test.bench", ".")
		benchText := output(func() {
			testing.RunBenchmarks(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalBenchmark{{Name: "BenchmarkDeviant", F: BenchmarkDeviant}})
			_ = flag.Set("test.bench", "")
			underTest.ShowWarnings(nil)
		})
		kit.Beat()
		// What the verification prints.
		o := &observed{SlogTestSuite: tests.NewSlogTestSuite(creator)}
		for _, w := range warns {
			o.WarnOnly(w)
		}
		verifyText := output(func() {
			testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "TestDeviant", F: func(t *testing.T) { suite.Run(t, o) }}})
			o.ShowWarnings(nil)
		})
		kit.Beat()
		c.Logf("benchmarks:\n%s\nverification:\n%s", benchText, verifyText)
		results, reports := data.NewBenchmarks(), data.NewWarnings()
		err := results.ParseBenchmarkData(strings.NewReader(benchText))
		if err == nil {
			err = reports.ParseWarningData(bytes.NewReader(results.WarningText()), "Bench", results.HandlerLookup())
		}
		if err == nil {
			err = reports.ParseWarningData(strings.NewReader(verifyText), "Verify", results.HandlerLookup())
		}
		if err != nil {
			c.Fatalf("parsing fails: %v\n%s\n%s", err, benchText, verifyText)
		}
		// Results.
		_, all := scenarios()
		var want []string
		for n, b := range all {
			if b.HandlerFn == nil || handler {
				want = append(want, n)
			}
		}
		wantAll := map[string]bool{}
		for _, n := range want {
			wantAll["Bench."+n] = true
		}
		gotAll := map[string]bool{}
		for _, test := range results.TestTags() {
			gotAll[string(test)] = true
			for h, r := range results.HandlerRecordsFor(test) {
				if h != "Deviant" || r.Runs != 1 || r.NanosPerOp <= 0 {
					c.Fatalf("test %s has a result %+v of handler %s\n%s", test, r, h, benchText)
				}
			}
		}
		if list(gotAll) != list(wantAll) {
			c.Fatalf("there are results for %s, expected %s\n%s", list(gotAll), list(wantAll), benchText)
		}
		if got := results.HandlerName("Deviant"); got != name {
			c.Fatalf("the handler is named %q, expected %q\n%s", got, name, benchText)
		}
		// Warnings.
		count := map[string]int{}
		for _, w := range underTest.GetWarnings() {
			if len(dev) == 0 && handler {
				c.Fatalf("without deviations the benchmarks warn of %s\n%s", w.Name, benchText)
			}
			for _, d := range w.Data {
				count[fmt.Sprintf("%s %s Bench %s", w.Level, w.Name, strings.TrimPrefix(d.Function, "Benchmark"))]++
			}
		}
		for _, w := range o.GetWarnings() {
			for _, d := range w.Data {
				count[fmt.Sprintf("%s %s Verify %s", w.Level, w.Name, strings.TrimPrefix(d.Function, "Test"))]++
			}
		}
		got := map[string]int{}
		for _, tag := range reports.HandlerTags() {
			if tag != "Deviant" {
				c.Fatalf("warnings are filed under %s\n%s\n%s", tag, benchText, verifyText)
			}
			for _, level := range reports.ForHandler(tag).Levels() {
				for _, w := range level.Warnings() {
					for _, i := range w.Instances() {
						got[fmt.Sprintf("%s %s %s %s", level.Name(), w.Name(), i.Source(), strings.TrimPrefix(i.Tag(), i.Source()+"."))]++
					}
				}
			}
		}
		if d := diffCounts(got, count); d != "" {
			c.Fatalf("the warnings parsed differ from those recorded: %s\n%s\n%s", d, benchText, verifyText)
		}
		c.Class(handler, "makes handlers")
		c.Class(len(underTest.GetWarnings()) > 0, "benchmarks warn")
		c.Case(len(dev) > 0, "%s, handler %v", list(dev), handler)
	})
}

func diffCounts(got, want map[string]int) string {
	var out []string
	for _, k := range kit.SortedKeys(got) {
		if got[k] != want[k] {
			out = append(out, fmt.Sprintf("%s: %d instead of %d", k, got[k], want[k]))
		}
	}
	for _, k := range kit.SortedKeys(want) {
		if _, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("%s: missing, expected %d", k, want[k]))
		}
	}
	return strings.Join(out, "; ")
}
