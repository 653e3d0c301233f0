package server

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// site is what the server is to show.
type site struct {
	handlers []*handler
	tests    []string // tags without Bench.
	bench    string
	verify   string
	texts    map[string]string // of directory docs
	langs    []string
}

type measures struct {
	runs, allocs, bytes uint64
	nanos, mbs          float64
}

type record struct {
	warning *warning.Warning
	source  string // Bench or Verify
	test    string // without prefix
	text    []string
	log     string
}

type link struct{ name, url string }

type handler struct {
	tag, name string // name is defined if it isn't empty
	stray     bool   // not in the benchmarks
	results   map[string]measures
	recs      []record
	reported  map[string]bool // by source
	summary   []string
	links     []link
}

func (h *handler) shown() string {
	if h.stray {
		// Parts are capitalized.
		var parts []string
		for _, p := range strings.Split(h.name, "/") {
			first, size := utf8.DecodeRuneInString(p)
			parts = append(parts, strings.ToUpper(string(first))+strings.ToLower(p[size:]))
		}
		return strings.Join(parts, " ")
	}
	if h.name != "" {
		return h.name
	}
	return data.HandlerTag(h.tag).Name()
}

// fromBench are the handlers with results, in name order.
func (s *site) fromBench() []*handler {
	var out []*handler
	for _, h := range s.handlers {
		if len(h.results) > 0 {
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := out[i].shown(), out[j].shown(); a != b {
			return a < b
		}
		return out[i].tag < out[j].tag
	})
	return out
}

func (s *site) benchTests() []string {
	seen := map[string]bool{}
	for _, h := range s.handlers {
		for t := range h.results {
			seen["Bench."+t] = true
		}
	}
	out := kit.SortedKeys(seen)
	sort.SliceStable(out, func(i, j int) bool { return testName(out[i]) < testName(out[j]) })
	return out
}

// warned are the tests of a source that raised warnings.
func (s *site) warned(source string) []string {
	seen := map[string]bool{}
	for _, h := range s.handlers {
		for _, r := range h.recs {
			if r.source == source {
				seen[r.source+"."+r.test] = true
			}
		}
	}
	out := kit.SortedKeys(seen)
	sort.SliceStable(out, func(i, j int) bool { return testName(out[i]) < testName(out[j]) })
	return out
}

func testName(tag string) string { return data.TestTag(tag).Name() }

var words = []string{"text", "two words", "<verif-x>", "a < b && c > d", "&lt;", "\"quoted\"", "it's", "<nil>", "</td></table>", "{{ .Handler }}", "100%", "ünïcödé 日本", "<script>alert(1)</script>", "%s %d", "a=1, b=2", "&amp;amp;", "[x](y)"}
var names = []string{"slog/JSONHandler", "madkins/flash", "a/b", "x", "my own handler", "<verif-x>", "a<b>c", "Tom & Jerry", "\"q\" 'r'", "ü/é", "zzz", "50%", "&lt;i&gt;", "{{ . }}", "Zap/Zap", "A"}
var tags = []string{"SlogJson", "MadkinsFlash", "Zap", "PhsymZerolog", "X", "Sam2ber", "JSON", "VeqrynDedupAppend", "MadkinsReplAttr", "Größe", "snake_case", "ZAP", "zap"}
var strays = []string{"phsym/zeroslog", "samber/slog-zap", "kh/JSONHandler", "über/éclair", "lone", "日本/語"}
var testTags = []string{"Attributes", "BigGroup", "Logging", "Simple", "SimpleSource", "KeyValues", "HTTPServer", "X", "Utf8", "WithGroup", "UTF8", "BIGGroup"}

func genNumber(c *kit.C, label string) uint64 {
	switch rapid.IntRange(0, 3).Draw(c.T, label+" kind") {
	case 0:
		return rapid.Uint64Range(0, 30).Draw(c.T, label)
	case 1:
		return rapid.Uint64Range(0, 1_000_000_000_000).Draw(c.T, label)
	default:
		return rapid.Uint64Range(0, 20_000).Draw(c.T, label)
	}
}

func genText(c *kit.C) []string {
	var out []string
	for n := rapid.IntRange(0, 3).Draw(c.T, "lines"); n > 0; n-- {
		out = append(out, rapid.SampledFrom(words).Draw(c.T, "words")+" "+rapid.SampledFrom(words).Draw(c.T, "words"))
	}
	if rapid.IntRange(0, 7).Draw(c.T, "caller") == 0 {
		out = append(out, rapid.SampledFrom(words[:4]).Draw(c.T, "failure")+": "+rapid.SampledFrom([]string{"", "", "more: ", "a: b: "}).Draw(c.T, "more")+rapid.SampledFrom(words).Draw(c.T, "meaning")+
			" (/usr/local/go/src/testing/"+rapid.SampledFrom([]string{"slogtest/slogtest.go:61", "slogtest/run_test.go:7", "testing.go:1689"}).Draw(c.T, "place")+")")
	}
	if n := kit.Size(c.T, "long text", 100, 100, 600, 3000, 20_000); n > 0 {
		out = append(out, kit.Filler(n))
	}
	if len(out) > 0 && rapid.IntRange(0, 7).Draw(c.T, "begin on the next line") == 0 {
		out = append([]string{""}, out...)
	}
	return out
}

func genLog(c *kit.C) string {
	switch rapid.IntRange(0, 3).Draw(c.T, "log") {
	case 0:
		return ""
	case 1:
		return `{"level":"INFO","msg":"<verif-x> & </pre>","n":[1,2,{"a":"b"}]}`
	case 2:
		return "{\"a\":1}\n{\"b\":\"<i>\"}"
	default:
		return "{broken <b> &amp; </td>"
	}
}

func known() []*warning.Warning {
	var out []*warning.Warning
	for _, l := range warning.LevelOrder {
		out = append(out, l.Warnings()...)
	}
	return out
}

// genSite makes up both outputs.
func genSite(c *kit.C) *site {
	s := &site{texts: map[string]string{}}
	all := known()
	nameOrder := rapid.SliceOfNDistinct(rapid.SampledFrom(names), 6, 6, rapid.ID).Draw(c.T, "names")
	for i, tag := range rapid.SliceOfNDistinct(rapid.SampledFrom(tags), 0, 5, rapid.ID).Draw(c.T, "handlers") {
		h := &handler{tag: tag, results: map[string]measures{}, reported: map[string]bool{}}
		if rapid.IntRange(0, 3).Draw(c.T, "named") > 0 {
			h.name = nameOrder[i]
		}
		s.handlers = append(s.handlers, h)
	}
	crowd, manyTests := kit.Size(c.T, "crowd", 20, 3, 6, 10, 20), rapid.Bool().Draw(c.T, "many tests")
	for i := 0; i < crowd && !manyTests; i++ {
		h := &handler{tag: "Crowd" + string(rune('A'+i)), results: map[string]measures{}, reported: map[string]bool{}}
		if i%2 == 0 {
			h.name = fmt.Sprint("crowd/", i)
		}
		s.handlers = append(s.handlers, h)
	}
	if n := kit.Size(c.T, "long name", 20, 40, 100, 300); n > 0 && len(s.handlers) > 0 {
		s.handlers[0].name = kit.Filler(n)
	}
	// Handlers that the benchmarks know nothing about are filed under the names they have in reports.
	if rapid.IntRange(0, 3).Draw(c.T, "other handlers") == 0 {
		for _, name := range rapid.SliceOfNDistinct(rapid.SampledFrom(strays), 1, 2, rapid.ID).Draw(c.T, "strays") {
			s.handlers = append(s.handlers, &handler{tag: name, name: name, stray: true, results: map[string]measures{}, reported: map[string]bool{}})
		}
	}
	s.tests = rapid.SliceOfNDistinct(rapid.SampledFrom(testTags), 1, 5, rapid.ID).Draw(c.T, "tests")
	for i := 0; i < crowd && manyTests; i++ {
		s.tests = append(s.tests, "Crowd"+string(rune('A'+i)))
	}
	var bench, verify bytes.Buffer
	suffix := rapid.SampledFrom([]string{"-8", "-16", ""}).Draw(c.T, "suffix")
	for _, h := range s.handlers {
		if h.name != "" && !h.stray {
			fmt.Fprintf(&bench, "# Handler[%s]=\"%s\"\n", h.tag, h.name)
		}
		full := rapid.Bool().Draw(c.T, "all tests")
		for _, t := range s.tests {
			if h.stray || !full && rapid.IntRange(0, 2).Draw(c.T, "left out") == 0 {
				continue
			}
			r := testing.BenchmarkResult{N: int(1 + genNumber(c, "runs")%10_000_000_000)}
			r.T = time.Duration(r.N) * time.Duration(1+genNumber(c, "nanos")%1_000_000)
			if rapid.Bool().Draw(c.T, "odd") {
				r.T += time.Duration(r.N / 3)
			}
			if rapid.Bool().Draw(c.T, "rate") {
				r.Bytes = int64(1 + genNumber(c, "op bytes"))
			}
			r.MemAllocs = uint64(r.N) * (genNumber(c, "allocs") % 100_000)
			bytes := genNumber(c, "bytes")
			if r.N > 1_000_000 {
				bytes %= 100_000_000
			}
			r.MemBytes = uint64(r.N) * bytes
			line := fmt.Sprintf("%s\t%s", r.String(), r.MemString())
			fmt.Fprintf(&bench, "Benchmark%s/Benchmark%s%s\t%s\n", h.tag, t, suffix, line)
			h.results[t] = readMeasures(line)
		}
		if rapid.IntRange(0, 3).Draw(c.T, "warned") > 0 {
			count := rapid.IntRange(0, 6).Draw(c.T, "warnings")
			var pick []*warning.Warning
			for j := 0; j < count; j++ {
				pick = append(pick, rapid.SampledFrom(all).Draw(c.T, "warning"))
			}
			for j := 0; j < count; j++ {
				h.recs = append(h.recs, record{
					warning: pick[rapid.IntRange(0, count-1).Draw(c.T, "which")],
					source:  rapid.SampledFrom([]string{"Verify", "Verify", "Bench"}).Draw(c.T, "source"),
					test:    rapid.SampledFrom(append([]string{"Message", "TimeZone"}, testTags...)).Draw(c.T, "in test"),
					text:    genText(c), log: genLog(c)})
			}
			if n := kit.Size(c.T, "instances", 20, 10, 25, 60); n > 0 {
				w := rapid.SampledFrom(all).Draw(c.T, "warning")
				for j := 0; j < n; j++ {
					h.recs = append(h.recs, record{warning: w, source: "Verify", test: testTags[j%len(testTags)], text: []string{fmt.Sprint("instance ", j)}, log: fmt.Sprintf("{\"i\":%d}", j)})
				}
			}
			if rapid.IntRange(0, 19).Draw(c.T, "all warnings") == 10 {
				for _, w := range all {
					h.recs = append(h.recs, record{warning: w, source: "Verify", test: "Message", text: []string{"one of all"}})
				}
			}
			h.reported[rapid.SampledFrom([]string{"Verify", "Bench"}).Draw(c.T, "empty report")] = true
			if h.name == "" {
				// Reports are filed under the name.
				h.name = data.HandlerTag(h.tag).Name()
				fmt.Fprintf(&bench, "# Handler[%s]=\"%s\"\n", h.tag, h.name)
			}
			if !h.stray && rapid.Bool().Draw(c.T, "has summary") {
				h.summary = rapid.SliceOfN(rapid.SampledFrom([]string{"A handler.", "It is *fast* and ^cool^.", "See [docs](https://example.com/d).", "", "* item", "1 < 2 & 3"}), 1, 4).Draw(c.T, "summary")
				for j := rapid.IntRange(0, 2).Draw(c.T, "links"); j > 0; j-- {
					h.links = append(h.links, link{fmt.Sprintf("<verif-x> %d", j), fmt.Sprintf("https://example.com/%d?a=1&b=<c>", j)})
				}
			}
		}
	}
	for _, source := range []string{"Bench", "Verify"} {
		prefix, fn, out := "# ", "Benchmark", &bench
		if source == "Verify" {
			prefix, fn, out = "", "Test", &verify
		}
		for _, h := range s.handlers {
			if source == "Verify" && h.summary != nil {
				fmt.Fprintf(out, ":[ %s\n", h.name)
				for _, l := range h.summary {
					fmt.Fprintf(out, ":: %s\n", l)
				}
				for _, l := range h.links {
					fmt.Fprintf(out, ":> %s --> %s\n", l.name, l.url)
				}
				fmt.Fprintf(out, ":]\n")
			}
			mgr := warning.NewWarningManager(h.name, "Test", prefix)
			n := 0
			for _, r := range h.recs {
				if r.source == source {
					mgr.AddWarningFnText(r.warning, fn+r.test, strings.Join(r.text, "\n"), r.log)
					n++
				}
			}
			if n > 0 || h.reported[source] {
				h.reported[source] = true
				mgr.ShowWarnings(out)
			}
		}
	}
	s.bench, s.verify = bench.String(), verify.String()
	for _, name := range []string{"bench.txt", "verify.txt", "tabular.txt"} {
		if rapid.Bool().Draw(c.T, name) {
			s.texts[name] = rapid.SampledFrom([]string{"plain\ntext\n", "a <verif-x> b\n& more &lt;\n", "{\"a\": \"<b>\"}\n</div></body>\n", "\n\n  indented\ttab\n", "x", "no end of line", "\t\n  \n", kit.Filler(90_000)}).Draw(c.T, "contents")
		}
	}
	s.langs = rapid.SampledFrom([][]string{nil, nil, {"en"}, {"de"}, {"fr"}, {"nonsense!", "de"}, {"en-US"}, {"ar"}, {"hi"}, {"de-CH"}, {"en-IN"}, {"pt-PT", "fr"}, {"nonsense!", "de-AT"}, {"sr-Latn"}, {"en-u-nu-deva"}}).Draw(c.T, "languages")
	return s
}

func readMeasures(line string) measures {
	var m measures
	for i, col := range strings.Split(line, "\t") {
		f := strings.Fields(col)
		if i == 0 {
			f = append(f, "runs")
		}
		v, err := strconv.ParseFloat(f[0], 64)
		harness(err)
		switch f[1] {
		case "runs":
			m.runs = uint64(v)
		case "ns/op":
			m.nanos = v
		case "MB/s":
			m.mbs = v
		case "B/op":
			m.bytes = uint64(v)
		case "allocs/op":
			m.allocs = uint64(v)
		default:
			panic("VERIF-HARNESS-ERROR " + line)
		}
	}
	if m.runs == 0 || math.IsInf(m.mbs, 0) {
		panic("VERIF-HARNESS-ERROR " + line)
	}
	return m
}

func (s *site) String() string {
	return fmt.Sprintf("languages %q, texts %q\nbenchmarks:\n%s\nverification:\n%s", s.langs, s.texts, s.bench, s.verify)
}

func (s *site) start() (*process, string) { return s.startProgram("server") }

func (s *site) startProgram(program string) (*process, string) {
	files := map[string]string{"bench": s.bench, "verify": s.verify}
	for n, t := range s.texts {
		files["docs/"+n] = t
	}
	args := []string{"-bench=bench", "-verify=verify"}
	for _, l := range s.langs {
		args = append(args, "-language="+l)
	}
	return start(program, files, args...)
}
