package warns

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	verify "github.com/madkins23/go-slog/verify/tests"
	"pgregory.net/rapid"
)

// What is recorded for a handler.
type Rec struct {
	Warning          int // index into pool
	Unused           bool
	Fn, Text, Record string
}

type Handler struct {
	Name, Tag string
	Recs      []Rec
	Summary   string
	Links     map[string]string
	Earlier   []int // runs before with the first records only, in the same process
}

type Source struct {
	Source, Prefix string
	Handlers       []Handler
}

func (h Handler) manager(prefix string) (*warning.Manager, *managerModel) {
	mgr, model := warning.NewWarningManager(h.Name, "Test", prefix), newModel()
	for _, r := range h.Recs {
		if r.Unused {
			mgr.AddWarningFnText(warning.Unused, r.Fn, pool[r.Warning].Name, r.Record)
			model.add(warning.Unused, r.Fn, pool[r.Warning].Name, r.Record)
		} else {
			mgr.AddWarningFnText(pool[r.Warning], r.Fn, r.Text, r.Record)
			model.add(pool[r.Warning], r.Fn, r.Text, r.Record)
		}
	}
	return mgr, model
}

const blank = " \t\r\f\v"

func trimLines(s string, skipBlank bool) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.Trim(l, blank)
		if l != "" || !skipBlank {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func squash(s string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(blank+"\n", r) {
			return -1
		}
		return r
	}, s)
}

// expected collects what the parser is to find.
type expInst struct{ name, tag, source, extra, line, log string }

func (i expInst) String() string {
	return fmt.Sprintf("<%s %s %s %q %q %q>", i.name, i.tag, i.source, i.extra, i.line, i.log)
}

type expWarn struct {
	summary string
	insts   []expInst
}

type expLevels map[warning.Level]map[string]*expWarn

func (e expLevels) add(l warning.Level, name, summary string, inst expInst) {
	if e[l] == nil {
		e[l] = map[string]*expWarn{}
	}
	w := e[l][name]
	if w == nil {
		w = &expWarn{}
		e[l][name] = w
	}
	w.summary = strings.Trim(summary, blank)
	w.insts = append(w.insts, inst)
}

func (e expLevels) String() string {
	var b strings.Builder
	for _, l := range warning.LevelOrder {
		if e[l] == nil {
			continue
		}
		fmt.Fprintf(&b, "  %s %d\n", l, len(e[l]))
		for _, n := range kit.SortedKeys(e[l]) {
			w := e[l][n]
			sort.SliceStable(w.insts, func(i, j int) bool { return w.insts[i].name < w.insts[j].name })
			fmt.Fprintf(&b, "    %s: %s %v\n", n, w.summary, w.insts)
		}
	}
	return b.String()
}

func realLevels(levels *data.Levels, forTest bool) string {
	if levels == nil {
		return "nothing"
	}
	var b strings.Builder
	for _, l := range levels.Levels() {
		fmt.Fprintf(&b, "  %s %d\n", l.Name(), levels.LevelCount(l.Level))
		if levels.Level(l.Level) != l || l.Count() != levels.LevelCount(l.Level) || l.Level.String() != l.Name() {
			return "levels don't agree"
		}
		for _, w := range l.Warnings() {
			var insts []expInst
			for _, i := range w.Instances() {
				e := expInst{name: i.Name(), tag: i.Tag(), source: i.Source(), extra: trimLines(i.Extra(), false),
					line: trimLines(i.Line(), true), log: squash(i.Log())}
				if forTest {
					e.tag, e.source, e.line = "", "", ""
				} else if i.HasSource() != (i.Source() != "") {
					return "HasSource is wrong"
				}
				if i.HasLog() != (e.log != "") {
					return "HasLog is wrong"
				}
				insts = append(insts, e)
			}
			fmt.Fprintf(&b, "    %s: %s %v\n", w.Name(), w.Summary(), insts)
		}
	}
	return b.String()
}

// logsOf lists all records the way they are shown.
func logsOf[T ~string](tags []T, levelsOf func(T) *data.Levels) string {
	var logs []string
	for _, tag := range tags {
		for _, l := range levelsOf(tag).Levels() {
			for _, w := range l.Warnings() {
				for _, i := range w.Instances() {
					logs = append(logs, fmt.Sprintf("%s %s: %q", l.Name(), w.Name(), i.Log()))
				}
			}
		}
	}
	sort.Strings(logs)
	return strings.Join(logs, "\n")
}

type expected struct {
	handlers map[string]expLevels
	names    map[string]string
	tests    map[string]expLevels
	counts   map[string]map[string]uint
	raisedBy map[string]map[string]bool
}

func newExpected() *expected {
	return &expected{map[string]expLevels{}, map[string]string{}, map[string]expLevels{}, map[string]map[string]uint{}, map[string]map[string]bool{}}
}

func stripTest(fn string) string {
	for {
		s := strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(fn, "Benchmark_"), "Benchmark"), "Test_"), "Test")
		if s == fn {
			return fn
		}
		fn = s
	}
}

func (e *expected) add(src Source, h Handler, model *managerModel) {
	tag := h.Tag
	if e.handlers[tag] == nil {
		e.handlers[tag] = expLevels{}
	}
	e.names[tag] = h.Name
	for _, mw := range model.result() {
		for _, d := range mw.data {
			text := d.fn
			if d.text != "" {
				text += ": " + d.text
			}
			fn, text, _ := strings.Cut(text, ":")
			fn = stripTest(fn)
			inst := expInst{name: data.TestTag(fn).Name(), tag: fn, source: src.Source,
				extra: trimLines(text, false), line: trimLines(d.record, true), log: squash(d.record)}
			e.handlers[tag].add(mw.w.Level, mw.w.Name, mw.w.Summary, inst)
			test := fn
			if src.Source != "" {
				test = src.Source + "." + fn
			}
			if e.tests[test] == nil {
				e.tests[test] = expLevels{}
			}
			e.tests[test].add(mw.w.Level, mw.w.Name, mw.w.Summary,
				expInst{name: data.HandlerTag(tag).Name(), extra: inst.extra, log: inst.log})
			if e.counts[mw.w.Name] == nil {
				e.counts[mw.w.Name], e.raisedBy[mw.w.Name] = map[string]uint{}, map[string]bool{}
			}
			e.counts[mw.w.Name][tag]++
			e.raisedBy[mw.w.Name][test] = true
		}
	}
}

// compare checks everything the parsed data offers.
func (e *expected) compare(c kit.Failer, w *data.Warnings, lookup bool) {
	tags := w.HandlerTags()
	if len(tags) != len(e.handlers) {
		c.Fatalf("handlers %q found, expected %q", tags, kit.SortedKeys(e.handlers))
	}
	for i, tag := range tags {
		want, ok := e.handlers[string(tag)]
		if !ok || !w.HasHandler(tag) {
			c.Fatalf("handler %q found, expected are %q", tag, kit.SortedKeys(e.handlers))
		}
		name := w.HandlerName(tag)
		if i > 0 && w.HandlerName(tags[i-1]) > name {
			c.Fatalf("handlers aren't in name order: %q", tags)
		}
		if lookup && name != e.names[string(tag)] || !lookup && !strings.EqualFold(squash(name), strings.ReplaceAll(squash(string(tag)), "/", "")) {
			c.Fatalf("handler %q is called %q, expected %q", tag, name, e.names[string(tag)])
		}
		if got := realLevels(w.ForHandler(tag), false); got != want.String() {
			c.Fatalf("handler %q: expected\n%s\ngot\n%s", tag, want, got)
		}
		if w.TestRecordsFor(tag) != w.ForHandler(tag) {
			c.Fatalf("two different results for %q", tag)
		}
	}
	tests := w.TestTags()
	if len(tests) != len(e.tests) {
		c.Fatalf("tests %q found, expected %q", tests, kit.SortedKeys(e.tests))
	}
	for i, tag := range tests {
		want, ok := e.tests[string(tag)]
		if !ok || !w.HasTest(tag) {
			c.Fatalf("test %q found, expected are %q", tag, kit.SortedKeys(e.tests))
		}
		if i > 0 && w.TestName(tests[i-1]) > w.TestName(tag) {
			c.Fatalf("tests aren't in name order: %q", tests)
		}
		if got := realLevels(w.ForTest(tag), true); got != want.String() {
			c.Fatalf("test %q: expected\n%s\ngot\n%s", tag, want, got)
		}
	}
	if hdlrLogs, testLogs := logsOf(tags, w.ForHandler), logsOf(tests, w.ForTest); hdlrLogs != testLogs {
		c.Fatalf("the records are shown for the handlers as\n%s\nand for the tests as\n%s", hdlrLogs, testLogs)
	}
	for _, src := range []string{"Bench", "Verify"} {
		var want []string
		for _, tag := range tests {
			if strings.HasPrefix(string(tag), src+".") {
				want = append(want, string(tag))
			}
		}
		if got := w.TestTagsForSource(src); fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fatalf("tests of %s: %q, expected %q", src, got, want)
		}
	}
	if len(w.ByWarning) != len(e.counts) {
		c.Fatalf("%d warnings found, expected %q", len(w.ByWarning), kit.SortedKeys(e.counts))
	}
	for _, pw := range pool {
		counts := e.counts[pw.Name]
		if counts == nil {
			if w.ByWarning[pw.Name] != nil {
				c.Fatalf("warning %s found", pw.Name)
			}
			continue
		}
		wd := w.ByWarning[pw.Name]
		if wd == nil || wd != w.FindWarning(pw.Name) || !wd.HasHandlers() || !wd.HasTests() || !wd.HasUsage() {
			c.Fatalf("warning %s isn't found", pw.Name)
		}
		got := map[string]uint{}
		for _, h := range wd.Handlers() {
			got[string(h)] = wd.Count[h]
			if w.HandlerWarningCount(h, pw) != wd.Count[h] {
				c.Fatalf("two counts of %s for %q", pw.Name, h)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(counts) || len(wd.Handlers()) != len(counts) {
			c.Fatalf("warning %s is counted %v (%v), expected %v", pw.Name, got, wd.Handlers(), counts)
		}
		found := map[string]bool{}
		for _, tag := range wd.Tests() {
			found[string(tag)] = true
		}
		if fmt.Sprint(found) != fmt.Sprint(e.raisedBy[pw.Name]) || len(wd.Tests()) != len(found) {
			c.Fatalf("warning %s is raised by %v, expected %v", pw.Name, wd.Tests(), e.raisedBy[pw.Name])
		}
	}
}

// generators

var camel = []string{"Attributes", "AttributesEmpty", "BigGroup", "SimpleSource", "KeyValues", "TZ", "X", "SlogTest", "WithGroupEmpty", "UTF8Names", "A1b2"}

func genFn(c *kit.C) string {
	name := rapid.SampledFrom(camel).Draw(c.T, "camel")
	switch rapid.IntRange(0, 6).Draw(c.T, "fn") {
	case 0, 1, 2:
		return "Test" + name
	case 3:
		return "Benchmark" + name
	case 4:
		return name
	case 5:
		return name + ": some,fields"
	default:
		return "Benchmark_" + name
	}
}

// crowdOf returns the texts for the first n numbers.
func crowdOf(format string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, format, i)
	}
	return b.String()
}

func genText(c *kit.C) string {
	if n := kit.Size(c.T, "text", 60, 100, 400, 1500, 6000, 70_000); n > 0 {
		return kit.Filler(n)
	}
	if n := kit.Size(c.T, "text lines", 60, 7, 13, 30, 110, 600); n > 0 {
		return strings.TrimSuffix(crowdOf("line %d of it\n", n), "\n")
	}
	switch rapid.IntRange(0, 5).Draw(c.T, "textmode") {
	case 0, 1:
		return ""
	case 2:
		return texts.Draw(c.T, "text")
	case 3:
		return kit.ValidText(c.T, "text")
	case 4:
		return rapid.SampledFrom([]string{"{\"a\":1}", "Required", "None", "Warnings for x:", "3 [x] y", "Handlers by warning:", ":[ x", "+", "\n\n", "x\n  indented\n\tTabbed", ": x",
			"test message: longer (/usr/go/src/testing/slogtest/slogtest.go:61)", "# x", "{\"level\":\"INFO\",\"msg\":\"x\"}\n"}).Draw(c.T, "tricky")
	default:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"line", "two words", "", "Required", "None", "{", "a: b"}), 1, 5).Draw(c.T, "lines"), "\n")
	}
}

func genRecord(c *kit.C) string {
	if n := kit.Size(c.T, "record lines", 30, 4, 7, 13, 30, 110, 600); n > 0 {
		return crowdOf("{\"line\":%d}\n", n)
	}
	switch rapid.IntRange(0, 7).Draw(c.T, "recmode") {
	case 0, 1, 2:
		return ""
	case 3:
		b, err := json.Marshal(map[string]any{"level": "INFO", "msg": kit.ValidText(c.T, "msg"), "n": 12345678901234567, "g": map[string]any{"x": 1.5}})
		if err != nil {
			panic(err)
		}
		return string(b) + "\n"
	case 4:
		return rapid.SampledFrom([]string{"{\"a\":1,\"a\":2}\n", "{\"z\":12345678901234567890,\"a\":1e400}", "{\"broken\":", "{}", "{\"a\":\"}\"}  ", "  {\"lead\":true}\n\n"}).Draw(c.T, "rec")
	case 5:
		return rapid.SampledFrom([]string{"{\"a\":1}\n{\"a\":2}\n", "{\"a\":1}\n\n{\"a\":2}\n{\"a\":3}", "{\n  \"a\": 1\n}\n"}).Draw(c.T, "multi")
	case 6:
		return rapid.SampledFrom([]string{"time=2024 level=INFO msg=x\n", "12:30:01 INFO message: text\n", "word", "level=INFO\nlevel=WARN\n", "INFO: x"}).Draw(c.T, "plain")
	default:
		n := rapid.SampledFrom([]int{100, 70_000, 300_000}).Draw(c.T, "big")
		if n > 100 && rapid.IntRange(0, 9).Draw(c.T, "rare") > 0 {
			n = 500
		}
		return "{\"big\":\"" + strings.Repeat("x", n) + "\"}\n"
	}
}

func genHandler(c *kit.C, name, tag string) Handler {
	h := Handler{Name: name, Tag: tag}
	n := rapid.IntRange(0, 8).Draw(c.T, "recs")
	if rapid.IntRange(0, 14).Draw(c.T, "many") == 0 {
		n = 30
	}
	few := rapid.IntRange(1, len(pool)-1).Draw(c.T, "few") // the fewer warnings, the more instances each has
	for i := 0; i < n; i++ {
		h.Recs = append(h.Recs, Rec{
			Warning: rapid.IntRange(0, few).Draw(c.T, "w"),
			Unused:  rapid.IntRange(0, 9).Draw(c.T, "unused") == 0,
			Fn:      genFn(c), Text: genText(c), Record: genRecord(c)})
	}
	if n := kit.Size(c.T, "crowd", 40, 20, 50, 110, 270, 600); n > 0 {
		one, unused := rapid.IntRange(0, few).Draw(c.T, "one"), rapid.IntRange(0, 3).Draw(c.T, "none used") == 0
		fns := rapid.SampledFrom([]int{1, 7, n}).Draw(c.T, "fns")
		for i := 0; i < n; i++ {
			h.Recs = append(h.Recs, Rec{Warning: one, Unused: unused, Fn: "TestCrowd" + string(rune('A'+i%fns%26)) + string(rune('a'+i%fns/26)),
				Text: fmt.Sprint("instance ", i), Record: fmt.Sprintf("{\"i\":%d}\n", i)})
		}
	}
	return h
}

// crowdHandlers returns the names of as many more handlers, mostly none.
func crowdHandlers(c *kit.C, names []string) []string {
	for i := kit.Size(c.T, "crowd of handlers", 30, 6, 12, 25, 50, 110); i > 0; i-- {
		names = append(names, fmt.Sprint("crowd/h", i))
	}
	return names
}

// genNamed generates a handler, those of a crowd are alike.
func genNamed(c *kit.C, i int, name, tag string) Handler {
	if !strings.HasPrefix(name, "crowd/") {
		return genHandler(c, name, tag)
	}
	h := Handler{Name: name, Tag: tag}
	for j := i % 3; j >= 0; j-- {
		h.Recs = append(h.Recs, Rec{Warning: (i + j) % len(pool), Fn: "Test" + camel[i%len(camel)], Text: fmt.Sprint("of ", i), Record: fmt.Sprintf("{\"i\":%d}\n", i)})
	}
	return h
}

var handlerNames = []string{"slog/JSONHandler", "phsym/zeroslog", "a/b", "X", "madkins/flash", "samber/slog-zap", "dedup/Append", "Warnings/for"}

var noiseBefore = []string{"=== RUN   TestX", "--- PASS: TestX (0.00s)", "    suite.go:87: ", "None", "  Required", "PASS", "goos: linux", "", "     3 [x] y",
	"         TestOther: text", "           {\"a\":1}", "{\"level\":\"INFO\"}", "2024/08/13 10:00:00 WARN Undefined warning", "Benchmark_slog", "           + x", "        \tError Trace:\tx.go:1"}
var noiseBetween = []string{"=== RUN   TestX", "--- PASS: TestX (0.00s)", "PASS", "FAIL", "goos: linux", "", "ok  \tgithub.com/madkins23/go-slog\t0.1s", "coverage: 10.0% of statements",
	"{\"level\":\"INFO\"}", "2024/08/13 10:00:00 WARN Undefined warning", "exit status 1", "None", "Required", "TestX", "TestX: text", "3 [x] y", "+ x", "Benchmark_slog/Benchmark_Simple-8 \t 100 \t 10 ns/op"}

func noise(c *kit.C, lines []string) string {
	var b strings.Builder
	for _, l := range rapid.SliceOfN(rapid.SampledFrom(lines), 0, 4).Draw(c.T, "noise") {
		b.WriteString(l + "\n")
	}
	return b.String()
}

var stdout *os.File

// captured runs fn and returns what it prints.
func captured(fn func()) string {
	if stdout == nil {
		var err error
		if stdout, err = os.CreateTemp("", "stdout"); err != nil {
			panic(err)
		}
	}
	_ = stdout.Truncate(0)
	_, _ = stdout.Seek(0, io.SeekStart)
	old := os.Stdout
	os.Stdout = stdout
	func() {
		defer func() { os.Stdout = old }()
		fn()
	}()
	_, _ = stdout.Seek(0, io.SeekStart)
	b, err := io.ReadAll(stdout)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func setupSuite(h Handler) {
	creator := infra.NewCreator(h.Name, func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return slog.NewJSONHandler(w, o) }, nil, h.Summary, h.Links)
	verify.NewSlogTestSuite(creator).SetupSuite()
}

func genSummary(c *kit.C, h *Handler) {
	if rapid.Bool().Draw(c.T, "nosummary") {
		return
	}
	lines := rapid.SliceOfN(rapid.SampledFrom([]string{"Text of the summary.", "", "* item", "More ^code^ here: x", "ü 中", "  indented", "[x](y)", ":]x"}), 1, 5).Draw(c.T, "summary")
	lines[0] = "Summary"
	if n := kit.Size(c.T, "summary lines", 15, 7, 13, 30, 110, 600); n > 0 {
		lines = strings.Split("Summary\n"+crowdOf("and line %d\n", n)+"the end", "\n")
	}
	if n := kit.Size(c.T, "summary long", 30, 100, 400, 6000, 70_000); n > 0 {
		lines[0] += kit.Filler(n)
	}
	h.Summary = strings.Join(lines, "\n")
	for _, l := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"Home", "slog docs", "a: b", "x>y", "ü"}), 0, 3, rapid.ID).Draw(c.T, "links") {
		if h.Links == nil {
			h.Links = map[string]string{}
		}
		h.Links[l] = rapid.SampledFrom([]string{"https://pkg.go.dev/log/slog", "x", "https://x/?a=b c"}).Draw(c.T, "link")
	}
	if n := kit.Size(c.T, "crowd of links", 15, 5, 9, 17, 40, 110); n > 0 {
		if h.Links == nil {
			h.Links = map[string]string{}
		}
		for i := 0; i < n; i++ {
			h.Links[fmt.Sprint("Link ", i)] = fmt.Sprint("https://x/", i)
		}
	}
}

func checkSummaries(c kit.Failer, w *data.Warnings, src Source) {
	for _, h := range src.Handlers {
		tag := data.HandlerTag(h.Tag)
		if w.HasHandlerSummary(tag) != (h.Summary != "") || w.HasHandlerLinks(tag) != (len(h.Links) > 0) {
			c.Fatalf("handler %s: summary found %v, links found %v: expected %q %v", h.Name, w.HasHandlerSummary(tag), w.HasHandlerLinks(tag), h.Summary, h.Links)
		}
		var want []string
		for _, l := range strings.Split(h.Summary, "\n") {
			want = append(want, strings.TrimSpace(l))
		}
		if got, want := w.HandlerSummaryHTML(tag), markdown.TemplateHTML(strings.Join(want, "\n"), true); got != want {
			c.Fatalf("handler %s: summary %q is found as %q", h.Name, want, got)
		}
		links := map[string]string{}
		for k, v := range w.HandlerLinks(tag) {
			links[k] = v
		}
		if fmt.Sprint(links) != fmt.Sprint(h.Links) {
			c.Fatalf("handler %s: links %v are found as %v", h.Name, h.Links, w.HandlerLinks(tag))
		}
	}
}

func show(srcs []Source) string {
	b, err := json.Marshal(srcs)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// TestW03_Plain: reports printed one after the other parse back.
func TestW03_Plain(t *testing.T) {
	kit.Check(t, 2000, 30000, "one to four handlers with up to 30 recorded warnings each (texts of several lines, records that are JSON, several lines, broken, plain or long), "+
		"printed with or without the comment prefix between other output and parsed without knowing handler names; non-trivial when at least two warnings are printed", func(c *kit.C) {
		src := Source{Source: rapid.SampledFrom([]string{"", "Verify", "Bench"}).Draw(c.T, "source"), Prefix: rapid.SampledFrom([]string{"", "# "}).Draw(c.T, "prefix")}
		exp := newExpected()
		var out bytes.Buffer
		out.WriteString(noise(c, noiseBefore))
		total, none := 0, false
		for i, name := range crowdHandlers(c, rapid.SliceOfNDistinct(rapid.SampledFrom(handlerNames), 1, 4, rapid.ID).Draw(c.T, "handlers")) {
			h := genNamed(c, i, name, name)
			src.Handlers = append(src.Handlers, h)
			mgr, model := h.manager(src.Prefix)
			mgr.ShowWarnings(&out)
			exp.add(src, h, model)
			total += len(h.Recs)
			none = none || len(model.result()) == 0
			out.WriteString(noise(c, noiseBetween))
		}
		w := data.NewWarnings()
		if err := w.ParseWarningData(bytes.NewReader(out.Bytes()), src.Source, nil); err != nil {
			c.Fatalf("parsing\n%s\nfails: %v", clip(out.String()), err)
		}
		c.Logf("printed:\n%s", clip(out.String()))
		exp.compare(c, w, false)
		c.Case(total > 1, "%s", show([]Source{src}))
		c.Class(none, "handler without warnings")
		c.Class(len(src.Handlers) > 1, "several handlers")
	})
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:4000] + " ..."
	}
	return s
}

// TestW03_Both: benchmark output with reports in comments, then verification output, sharing handler names.
func TestW03_Both(t *testing.T) {
	kit.Check(t, 1500, 25000, "benchmark output that defines one to four handlers and carries reports as comments, and verification output with reports, summaries and links, "+
		"parsed one after the other with the names from the benchmark; non-trivial when a handler has warnings in both or a summary", func(c *kit.C) {
		bench, ver := Source{Source: "Bench", Prefix: "# "}, Source{Source: "Verify"}
		exp := newExpected()
		var benchOut, verOut bytes.Buffer
		nontriv := false
		var reports bytes.Buffer
		for i, name := range crowdHandlers(c, rapid.SliceOfNDistinct(rapid.SampledFrom(handlerNames), 1, 4, rapid.ID).Draw(c.T, "handlers")) {
			tag := rapid.SampledFrom([]string{"SlogJSON", "Flash", "SamberZap", "X"}).Draw(c.T, "tag") + fmt.Sprint(i)
			fmt.Fprintf(&benchOut, "# Handler[%s]=\"%s\"\n", tag, name)
			benchOut.WriteString(noise(c, []string{"Benchmark" + tag + "/BenchmarkSimple-8 \t 100 \t 10 ns/op", "goos: linux", "PASS", "{\"level\":\"INFO\"}"}))
			in := rapid.IntRange(1, 3).Draw(c.T, "in")
			both := 0
			if in&1 != 0 {
				h := genNamed(c, i, name, tag)
				bench.Handlers = append(bench.Handlers, h)
				mgr, model := h.manager("# ")
				mgr.ShowWarnings(&reports)
				exp.add(bench, h, model)
				both += min(1, len(h.Recs))
			}
			if in&2 != 0 {
				h := genNamed(c, i+1, name, tag)
				genSummary(c, &h)
				ver.Handlers = append(ver.Handlers, h)
				both += min(1, len(h.Recs))
				nontriv = nontriv || h.Summary != "" || both == 2
			}
		}
		for _, h := range ver.Handlers {
			verOut.WriteString(noise(c, noiseBefore))
			verOut.WriteString(captured(func() { setupSuite(h) }))
			verOut.WriteString(noise(c, noiseBefore))
		}
		for _, h := range ver.Handlers {
			mgr, model := h.manager("")
			mgr.ShowWarnings(&verOut)
			exp.add(ver, h, model)
			verOut.WriteString(noise(c, noiseBetween))
		}
		benchOut.Write(reports.Bytes())
		c.Logf("benchmark output:\n%s\nverification output:\n%s", clip(benchOut.String()), clip(verOut.String()))
		b, w := data.NewBenchmarks(), data.NewWarnings()
		if err := b.ParseBenchmarkData(bytes.NewReader(benchOut.Bytes())); err != nil {
			c.Fatalf("parsing the benchmark output fails: %v", err)
		}
		if err := w.ParseWarningData(bytes.NewReader(b.WarningText()), "Bench", b.HandlerLookup()); err != nil {
			c.Fatalf("parsing the benchmark warnings fails: %v", err)
		}
		if err := w.ParseWarningData(bytes.NewReader(verOut.Bytes()), "Verify", b.HandlerLookup()); err != nil {
			c.Fatalf("parsing the verification output fails: %v", err)
		}
		exp.compare(c, w, true)
		checkSummaries(c, w, ver)
		c.Case(nontriv, "%s", show([]Source{bench, ver}))
	})
}

// runScript plays a test program: suites set up, warnings recorded, and everything reported at the end.
func runScript(m *testing.M, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var src Source
	if err = json.Unmarshal(b, &src); err != nil {
		panic(err)
	}
	for _, h := range src.Handlers {
		if h.Summary != "" {
			setupSuite(h)
		}
	}
	for round := 0; round < 3; round++ {
		for _, h := range src.Handlers {
			if round < len(h.Earlier) {
				before := h
				before.Recs = h.Recs[:h.Earlier[round]]
				before.manager(src.Prefix)
			}
		}
	}
	for _, h := range src.Handlers {
		h.manager(src.Prefix)
	}
	warning.WithWarnings(m)
}

// TestW03_Process: a whole test process ending in the reports and the overview.
func TestW03_Process(t *testing.T) {
	kit.Check(t, 150, 1200, "a process that sets up suites for one to four handlers (now and then over a hundred), makes up to four managers for each of them, of which the last one counts, records warnings and ends through the warnings report; its output is parsed and the closing overview "+
		"is compared line by line; non-trivial when two handlers have warnings", func(c *kit.C) {
		src := Source{Source: "Verify", Prefix: rapid.SampledFrom([]string{"", "# "}).Draw(c.T, "prefix")}
		exp := newExpected()
		lookup := map[string]data.HandlerTag{}
		with, again := 0, 0
		overview := map[warning.Level]map[string]map[string]bool{}
		for i, name := range crowdHandlers(c, rapid.SliceOfNDistinct(rapid.SampledFrom(handlerNames), 1, 4, rapid.ID).Draw(c.T, "handlers")) {
			h := genNamed(c, i, name, fmt.Sprintf("Tag%d", i))
			genSummary(c, &h)
			lookup[name] = data.HandlerTag(h.Tag)
			h.Earlier = rapid.SliceOfN(rapid.IntRange(0, len(h.Recs)), 0, 3).Draw(c.T, "earlier")
			again += len(h.Earlier)
			src.Handlers = append(src.Handlers, h)
		}
		// reports come in name order
		sorted := append([]Handler{}, src.Handlers...)
		sort.Slice(sorted, func(i, j int) bool { return sorted[i].Name < sorted[j].Name })
		for _, h := range sorted {
			_, model := h.manager(src.Prefix)
			exp.add(src, h, model)
			res := model.result()
			if len(res) > 0 {
				with++
			}
			for _, mw := range res {
				l := overview[mw.w.Level]
				if l == nil {
					l = map[string]map[string]bool{}
					overview[mw.w.Level] = l
				}
				if l[mw.w.Name] == nil {
					l[mw.w.Name] = map[string]bool{}
				}
				l[mw.w.Name][h.Name] = true
			}
		}
		b, err := json.Marshal(src)
		if err != nil {
			panic(err)
		}
		path := filepath.Join(t.TempDir(), "script.json")
		if err = os.WriteFile(path, b, 0o600); err != nil {
			panic(err)
		}
		cmd := exec.Command(os.Args[0], "-test.run=^$")
		cmd.Env = append(os.Environ(), "VERIF_WARN_SCRIPT="+path)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		if err != nil {
			c.Fatalf("the process fails: %v\n%s%s", err, clip(string(out)), clip(stderr.String()))
		}
		c.Logf("printed:\n%s", clip(string(out)))
		w := data.NewWarnings()
		if err := w.ParseWarningData(bytes.NewReader(out), "Verify", lookup); err != nil {
			c.Fatalf("parsing fails: %v", err)
		}
		exp.compare(c, w, true)
		checkSummaries(c, w, src)
		var want []string
		if len(overview) > 0 {
			want = append(want, "Handlers by warning:")
			for _, l := range warning.LevelOrder {
				if overview[l] == nil {
					continue
				}
				want = append(want, l.String())
				for _, n := range kit.SortedKeys(overview[l]) {
					want = append(want, strings.TrimSpace("["+n+"] "+warning.ByName(n).Summary))
					want = append(want, kit.SortedKeys(overview[l][n])...)
				}
			}
		}
		var got []string
		for _, line := range strings.Split(string(out), "\n") {
			line = strings.TrimSpace(strings.TrimPrefix(line, src.Prefix))
			if len(got) > 0 && line != "" || line == "Handlers by warning:" {
				got = append(got, line)
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fatalf("overview: expected\n%s\ngot\n%s", strings.Join(want, "\n"), strings.Join(got, "\n"))
		}
		c.Class(again > 0, "several managers of a handler")
		c.Case(with > 1, "%s", show([]Source{src}))
	})
}
