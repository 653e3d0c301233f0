package warns

import (
	"bytes"
	"flag"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// benchModel is what benchmark output says, read independently of the parser under test.
type benchModel struct {
	results  map[string]map[string]map[string]float64 // handler, test, unit
	names    map[string]string
	comments []string
	out      bytes.Buffer
}

func newBenchModel() *benchModel {
	return &benchModel{results: map[string]map[string]map[string]float64{}, names: map[string]string{}}
}

func (m *benchModel) result(handler, test, suffix string, r testing.BenchmarkResult, mem bool) {
	line := fmt.Sprintf("Benchmark%s/Benchmark%s%s\t%s", handler, test, suffix, r.String())
	if mem {
		line += "\t" + r.MemString()
	}
	m.out.WriteString(line + "\n")
	units := map[string]float64{}
	for i, col := range strings.Split(line, "\t")[1:] {
		f := strings.Fields(col)
		if i == 0 {
			f = append(f, "runs")
		}
		v, err := strconv.ParseFloat(f[0], 64)
		if err != nil {
			panic("VERIF-HARNESS-ERROR " + line)
		}
		units[f[1]] = v
	}
	if _, ok := units["ns/op"]; !ok {
		panic("VERIF-HARNESS-ERROR " + line)
	}
	if m.results[handler] == nil {
		m.results[handler] = map[string]map[string]float64{}
	}
	m.results[handler][test] = units
}

func (m *benchModel) define(handler, name string) {
	fmt.Fprintf(&m.out, "# Handler[%s]=\"%s\"\n", handler, name)
	m.names[handler] = name
}

func (m *benchModel) comment(s string) {
	m.out.WriteString("# " + s + "\n")
	m.comments = append(m.comments, s)
}

func (m *benchModel) warningText() string {
	return strings.TrimLeft(strings.Join(m.comments, "\n"), "\n")
}

// words splits an identifier at changes between upper case, lower case, digits and others.
func words(s string) string {
	class := func(r rune) int {
		switch {
		case unicode.IsLower(r):
			return 1
		case unicode.IsUpper(r):
			return 2
		case unicode.IsDigit(r):
			return 3
		}
		return 4
	}
	var parts [][]rune
	last := 0
	for _, r := range s {
		if cl := class(r); cl != last {
			if last == 2 && cl == 1 && len(parts) > 0 {
				// The last capital starts the word.
				prev := parts[len(parts)-1]
				start := prev[len(prev)-1]
				parts[len(parts)-1] = prev[:len(prev)-1]
				parts = append(parts, []rune{start})
			} else {
				parts = append(parts, nil)
			}
			last = cl
		}
		parts[len(parts)-1] = append(parts[len(parts)-1], r)
	}
	var out []string
	for _, p := range parts {
		if len(p) > 0 {
			out = append(out, string(p))
		}
	}
	return strings.Join(out, " ")
}

func (m *benchModel) name(handler string) string {
	if name, ok := m.names[handler]; ok {
		return name
	}
	return words(handler)
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func (m *benchModel) compare(c kit.Failer, b *data.Benchmarks) {
	tests := map[string]bool{}
	var handlers []string
	for h, res := range m.results {
		handlers = append(handlers, h)
		for t := range res {
			tests[t] = true
		}
	}
	sort.Slice(handlers, func(i, j int) bool { return m.name(handlers[i]) < m.name(handlers[j]) })
	for again := 0; again < 2; again++ {
		var got []string
		for _, h := range b.HandlerTags() {
			got = append(got, string(h))
		}
		if fmt.Sprint(got) != fmt.Sprint(handlers) {
			c.Fatalf("handlers are %q, expected %q", got, handlers)
		}
	}
	names := kit.SortedKeys(tests)
	sort.Slice(names, func(i, j int) bool { return words(names[i]) < words(names[j]) })
	var got []string
	for _, t := range b.TestTags() {
		got = append(got, strings.TrimPrefix(string(t), "Bench."))
	}
	if fmt.Sprint(got) != fmt.Sprint(names) {
		c.Fatalf("tests are %q, expected %q", got, names)
	}
	check := func(h, t string, r data.TestRecord, u map[string]float64) {
		if r.IsEmpty() != (u == nil) {
			c.Fatalf("%s %s: empty result %v, expected %v", h, t, r, u)
		}
		for _, x := range []struct {
			item data.BenchItems
			val  float64
			want float64
		}{
			{data.Runs, float64(r.Runs), u["runs"]},
			{data.Nanos, r.NanosPerOp, u["ns/op"]},
			{data.MemAllocs, float64(r.MemAllocsPerOp), u["allocs/op"]},
			{data.MemBytes, float64(r.MemBytesPerOp), u["B/op"]},
			{data.MbPerSec, r.MbPerSec, u["MB/s"]},
			{data.GbPerSec, r.GbPerSec, u["MB/s"] / 1e3},
			{data.TbPerSec, r.TbPerSec, u["MB/s"] / 1e6},
		} {
			if !near(x.val, x.want) || r.ItemValue(x.item) != x.val {
				c.Fatalf("%s %s: %s is %v and %v, expected %v", h, t, x.item, x.val, r.ItemValue(x.item), x.want)
			}
		}
	}
	for _, h := range handlers {
		tag := data.HandlerTag(h)
		if !b.HasHandler(tag) || b.HandlerName(tag) != m.name(h) || tag.Name() != words(h) {
			c.Fatalf("handler %q: found %v, called %q and %q, expected %q", h, b.HasHandler(tag), b.HandlerName(tag), tag.Name(), m.name(h))
		}
		if len(b.TestRecordsFor(tag)) != len(m.results[h]) {
			c.Fatalf("handler %q has results %v, expected %v", h, b.TestRecordsFor(tag), m.results[h])
		}
		for t := range tests {
			check(h, t, b.TestRecordsFor(tag)[data.TestTag("Bench."+t)], m.results[h][t])
		}
	}
	for t := range tests {
		tag := data.TestTag("Bench." + t)
		if !b.HasTest(tag) || b.TestName(tag) != words(t) {
			c.Fatalf("test %q: found %v, called %q, expected %q", t, b.HasTest(tag), b.TestName(tag), words(t))
		}
		n := 0
		for _, h := range handlers {
			check(h, t, b.HandlerRecordsFor(tag)[data.HandlerTag(h)], m.results[h][t])
			if m.results[h][t] != nil {
				n++
			}
		}
		if len(b.HandlerRecordsFor(tag)) != n {
			c.Fatalf("test %q has results %v, expected %d", t, b.HandlerRecordsFor(tag), n)
		}
	}
	if b.HasHandler("Nobody") || b.HasTest("Bench.Nothing") || b.HandlerRecordsFor("Bench.Nothing") != nil || b.TestRecordsFor("Nobody") != nil ||
		b.HandlerName("Nobody") != "Nobody" || b.TestName("Bench.Nothing") != "Bench.Nothing" {
		c.Fatalf("an unknown handler or test is found")
	}
	lookup := map[string]string{}
	for name, tag := range b.HandlerLookup() {
		lookup[name] = string(tag)
	}
	want := map[string]string{}
	for _, h := range handlers {
		want[m.name(h)] = h
	}
	for h, name := range m.names {
		want[name] = h
	}
	if fmt.Sprint(lookup) != fmt.Sprint(want) {
		c.Fatalf("lookup is %q, expected %q", lookup, want)
	}
	if text := m.warningText(); string(b.WarningText()) != text || b.HasWarningText() != (text != "") {
		c.Fatalf("warning text is %q, expected %q", b.WarningText(), text)
	}
}

var benchTests = []string{"Attributes", "BigGroup", "Simple", "SimpleSource", "KeyValues", "WithAttrsSimple", "HTTPServer", "X", "simple", "Utf8", "A1b2", "URL", "URLs"}
var benchHandlers = []string{"SlogJson", "MadkinsFlash", "Zap", "_slog", "PhsymZerolog", "X", "Sam2ber", "JSON", "slog"}
var benchNames = []string{"slog/JSONHandler", "madkins/flash", "a/b", "x", "my own handler", "handler \"quoted\"", "ü/é", "name=1", "zzz", "-", "[x]", "a  b"}

var benchNoise = []string{
	"goos: linux", "goarch: amd64", "pkg: github.com/madkins23/go-slog/bench", "cpu: Intel(R) Core(TM) i7-7820HQ CPU @ 2.90GHz", "PASS", "FAIL", "",
	"ok  \tgithub.com/madkins23/go-slog/bench\t210.4s", "2024/02/25 07:54:11 WARN Verification Error err=\"x\"",
	"BenchmarkSlogJson/BenchmarkSimple", "BenchmarkSlogJson", "BenchmarkSlogJson/BenchmarkSimple-8         \t--- FAIL: BenchmarkSlogJson/BenchmarkSimple-8",
	"--- BENCH: BenchmarkSlogJson/BenchmarkSimple-8", "    suite.go:12: x", "BenchmarkSlogJson-8 \t 100 \t 12.5 ns/op", "{\"msg\":\"BenchmarkA/BenchmarkB-8 \\t 1 \\t 2 ns/op\"}",
	" BenchmarkSlogJson/BenchmarkSimple-8 \t 100 \t 1.5 ns/op", "Handler[X]=\"y\"", "##", "#", "#x", "## Handler[X]=\"y\"", "\t# indented", "BenchmarkSlogJson/BenchmarkSimple-8 \t 100",
	"BenchmarkSlogJson/BenchmarkSimple-8 \t 100 \t 5 MB/s", "Benchmark/Benchmark-8 \t 100 \t 5 ns/op"}

var benchComments = []string{"", " indented", "Warnings for x:", "None", "text # more", "   2 [Duplicates] x", "Benchmark", "BenchmarkA/BenchmarkB-8 \t 1 \t 2 ns/op", "Handler X", "Handler[X]=", "\ttab", "# double", "ü 日本"}

func genResult(c *kit.C) (testing.BenchmarkResult, bool) {
	r := testing.BenchmarkResult{}
	r.N = int(math.Pow(10, rapid.Float64Range(0, 9.5).Draw(c.T, "runs")))
	ns := math.Pow(10, rapid.Float64Range(-4, 11).Draw(c.T, "ns"))
	if rapid.IntRange(0, 3).Draw(c.T, "exact") == 0 {
		ns = float64(rapid.IntRange(1, 5000).Draw(c.T, "whole"))
	}
	total := ns * float64(r.N)
	if total > 1e18 {
		r.N = 1
		total = ns
	}
	r.T = max(1, time.Duration(total))
	switch rapid.IntRange(0, 3).Draw(c.T, "bytes") {
	case 1:
		r.Bytes = rapid.Int64Range(1, 1000).Draw(c.T, "bytes/op")
	case 2:
		r.Bytes = rapid.Int64Range(1, 1_000_000_000_000).Draw(c.T, "bytes/op")
	}
	mem := rapid.IntRange(0, 4).Draw(c.T, "mem") > 0
	if mem {
		r.MemAllocs = uint64(r.N) * rapid.Uint64Range(0, 3000).Draw(c.T, "allocs")
		r.MemBytes = uint64(r.N) * rapid.Uint64Range(0, 1_000_000_000).Draw(c.T, "membytes")
		if digits := kit.Size(c.T, "digits", 12, 6, 9, 12, 15, 18, 19); digits > 0 {
			most := uint64(math.MaxInt64) / uint64(r.N)
			n := uint64(math.Pow(10, float64(digits)-1)) + rapid.Uint64Range(0, 100_000).Draw(c.T, "more")
			if r.MemBytes = uint64(r.N) * min(most, n); rapid.Bool().Draw(c.T, "many allocs") {
				r.MemAllocs = r.MemBytes
			}
		}
	}
	if rapid.IntRange(0, 5).Draw(c.T, "extra") == 0 {
		r.Extra = map[string]float64{"widgets/op": 12.5, "p50-ns/event": 3}
	}
	return r, mem
}

// genBench writes benchmark output.
func genBench(c *kit.C, comments bool) *benchModel {
	m := newBenchModel()
	handlers := rapid.SliceOfNDistinct(rapid.SampledFrom(benchHandlers), 0, 5, rapid.ID).Draw(c.T, "handlers")
	names := rapid.SliceOfNDistinct(rapid.SampledFrom(benchNames), 12, 12, rapid.ID).Draw(c.T, "names")
	tests := rapid.SliceOfNDistinct(rapid.SampledFrom(benchTests), 1, 6, rapid.ID).Draw(c.T, "tests")
	suffix := rapid.SampledFrom([]string{"-8", "-16", "", "-1024"}).Draw(c.T, "suffix")
	type item struct {
		kind    int
		handler int
	}
	var items []item
	for h := range handlers {
		items = append(items, item{0, h})
		for i := rapid.IntRange(0, 7).Draw(c.T, "results"); i > 0; i-- {
			items = append(items, item{1, h})
		}
	}
	for i := rapid.IntRange(0, 5).Draw(c.T, "extras"); i > 0; i-- {
		items = append(items, item{rapid.IntRange(2, 3).Draw(c.T, "extra kind"), 0})
	}
	if n := kit.Size(c.T, "crowd", 30, 8, 13, 25, 50, 110, 270); n > 0 {
		both := rapid.IntRange(1, 3).Draw(c.T, "crowd of")
		r, mem := genResult(c)
		for i := 0; i < n; i++ {
			r.N++
			if both&1 != 0 {
				m.result("Sam2ber", fmt.Sprint("Crowd", i), suffix, r, mem)
			}
			if both&2 != 0 {
				h := fmt.Sprint("Crowd", i)
				m.result(h, tests[i%len(tests)], suffix, r, mem)
				if i%3 == 0 {
					m.define(h, fmt.Sprint("crowd/", i))
				}
			}
		}
	}
	if n := kit.Size(c.T, "long", 30, 70, 150, 300, 1500, 6000); n > 0 {
		r, mem := genResult(c)
		long := strings.NewReplacer(".", "", "x", "L").Replace(kit.Filler(n))
		m.result(long, long, suffix, r, mem)
		if rapid.Bool().Draw(c.T, "defined") {
			m.define(long, kit.Filler(n))
		}
	}
	if rapid.Bool().Draw(c.T, "shuffle") {
		items = rapid.Permutation(items).Draw(c.T, "order")
	}
	for _, it := range items {
		h := ""
		if it.kind < 2 {
			h = handlers[it.handler]
		}
		switch it.kind {
		case 0:
			n := rapid.IntRange(0, 6).Draw(c.T, "define")
			if n == 6 {
				m.define(h, h)
				continue
			}
			if n == 5 {
				m.define(h, names[it.handler+6])
			}
			if n > 0 {
				m.define(h, names[it.handler])
			}
		case 1:
			r, mem := genResult(c)
			m.result(h, rapid.SampledFrom(tests).Draw(c.T, "test"), suffix, r, mem)
		case 2:
			m.out.WriteString(rapid.SampledFrom(benchNoise).Draw(c.T, "noise") + "\n")
		case 3:
			if comments {
				m.comment(rapid.SampledFrom(benchComments).Draw(c.T, "comment"))
			}
		}
	}
	return m
}

func (m *benchModel) count() (n int) {
	for _, r := range m.results {
		n += len(r)
	}
	return n
}

func TestD01_Benchmarks(t *testing.T) {
	kit.Check(t, 6000, 150000, "benchmark output of up to five handlers and six tests, each line printed by the testing package with or without rates, memory and extra columns and processor suffix, "+
		"mixed in any order with definition lines (none, repeated, before or after the data), comments and unrelated or look-alike lines; repeated results (the last counts); "+
		"non-trivial: at least two results", func(c *kit.C) {
		m := genBench(c, true)
		text := m.out.Bytes()
		c.Case(m.count() > 1, "%s", text)
		c.Class(len(m.names) > 0, "definitions")
		c.Class(len(m.comments) > 0, "comments")
		b := data.NewBenchmarks()
		cut := 0
		if rapid.IntRange(0, 3).Draw(c.T, "parts") == 0 && len(text) > 0 {
			cut = bytes.LastIndexByte(text[:rapid.IntRange(0, len(text)-1).Draw(c.T, "cut")], '\n') + 1
		}
		if rapid.IntRange(0, 3).Draw(c.T, "crlf") == 0 {
			text = bytes.ReplaceAll(text, []byte("\n"), []byte("\r\n"))
			cut = 0
		}
		if rapid.IntRange(0, 3).Draw(c.T, "noeol") == 0 {
			text = bytes.TrimSuffix(text, []byte("\n"))
		}
		for _, part := range [][]byte{text[:cut], text[cut:]} {
			if err := b.ParseBenchmarkData(bytes.NewReader(part)); err != nil {
				c.Fatalf("parsing\n%s\nfails: %v", text, err)
			}
		}
		c.Logf("output:\n%s", text)
		m.compare(c, b)
	})
}

// TestD01_Setup: both files given by flags, as the programs do it.
func TestD01_Setup(t *testing.T) {
	dir := t.TempDir()
	benchPath, verifyPath := filepath.Join(dir, "bench.txt"), filepath.Join(dir, "verify.txt")
	if flag.Set("bench", benchPath) != nil || flag.Set("verify", verifyPath) != nil {
		t.Fatalf("the flags are missing")
	}
	kit.Check(t, 1000, 25000, "benchmark output as before with warning reports as comments at the end, and verification output with reports of some of the same handlers, "+
		"in two files named by the flags; benchmarks and warnings must be complete and warnings filed under the tags of the benchmarks; non-trivial: results and warnings", func(c *kit.C) {
		m := genBench(c, false)
		exp := newExpected()
		var verOut bytes.Buffer
		bench, ver := Source{Source: "Bench", Prefix: "# "}, Source{Source: "Verify"}
		var srcs []Source
		recs := 0
		for i, tag := range kit.SortedKeys(m.names) {
			name := fmt.Sprintf("%s%d", rapid.SampledFrom(handlerNames).Draw(c.T, "name"), i)
			m.define(tag, name)
			if rapid.Bool().Draw(c.T, "in bench") {
				h := genHandler(c, name, tag)
				bench.Handlers = append(bench.Handlers, h)
				mgr, model := h.manager("# ")
				var buf bytes.Buffer
				mgr.ShowWarnings(&buf)
				m.out.Write(buf.Bytes())
				for _, line := range strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n") {
					if strings.HasPrefix(line, "# ") {
						m.comments = append(m.comments, strings.TrimSuffix(line[2:], "\r"))
					}
				}
				exp.add(bench, h, model)
				recs += len(h.Recs)
			}
			if rapid.Bool().Draw(c.T, "in verify") {
				h := genHandler(c, name, tag)
				ver.Handlers = append(ver.Handlers, h)
				mgr, model := h.manager("")
				mgr.ShowWarnings(&verOut)
				exp.add(ver, h, model)
				recs += len(h.Recs)
			}
		}
		srcs = append(srcs, bench, ver)
		c.Case(m.count() > 0 && recs > 0, "%s\n%s", m.out.Bytes()[:min(400, m.out.Len())], show(srcs))
		if err := os.WriteFile(benchPath, m.out.Bytes(), 0o600); err != nil {
			panic(err)
		}
		if err := os.WriteFile(verifyPath, verOut.Bytes(), 0o600); err != nil {
			panic(err)
		}
		c.Logf("benchmarks:\n%s\nverification:\n%s", clip(m.out.String()), clip(verOut.String()))
		b, w := data.NewBenchmarks(), data.NewWarnings()
		if err := data.Setup(b, w); err != nil {
			c.Fatalf("setup fails: %v", err)
		}
		m.compare(c, b)
		exp.compare(c, w, true)
	})
}
