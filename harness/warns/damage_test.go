package warns

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/gin"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	fields "github.com/madkins23/go-slog/internal/json"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// queryBenchmarks asks for everything there is.
func queryBenchmarks(b *data.Benchmarks) (n int) {
	for _, h := range b.HandlerTags() {
		_, _, _ = b.HasHandler(h), b.HandlerName(h), h.Name()
		n += len(b.TestRecordsFor(h))
		for t, r := range b.TestRecordsFor(h) {
			_, _, _, _ = b.HasTest(t), b.TestName(t), t.Name(), r.IsEmpty()
			for _, item := range data.BenchItemsValues() {
				_ = r.ItemValue(item)
			}
		}
	}
	for _, t := range b.TestTags() {
		n += len(b.HandlerRecordsFor(t))
	}
	_, _ = b.HandlerLookup(), b.HasWarningText()
	return n
}

func queryLevels(levels *data.Levels) (n int) {
	for _, l := range warning.LevelOrder {
		_, _ = levels.Level(l), levels.LevelCount(l)
	}
	for _, l := range levels.Levels() {
		_, _, _ = l.Name(), l.Count(), l.String()
		for _, w := range l.Warnings() {
			_, _, _, _ = w.Name(), w.HasDescription(), w.Description(), w.Summary()
			for _, i := range w.Instances() {
				_, _, _, _, _, _ = i.Extra(), i.ExtraHTML(), i.Line(), i.HasLog(), i.Log(), i.Name()
				_, _, _ = i.HasSource(), i.Source(), i.Tag()
				n++
			}
		}
	}
	return n
}

func queryWarnings(w *data.Warnings) (n int) {
	for _, h := range w.HandlerTags() {
		_, _, _, _ = w.HasHandler(h), w.HandlerName(h), w.HasHandlerSummary(h), w.HandlerSummaryHTML(h)
		_, _ = w.HasHandlerLinks(h), w.HandlerLinks(h)
		n += queryLevels(w.ForHandler(h))
		_ = queryLevels(w.TestRecordsFor(h))
		for _, l := range warning.LevelOrder {
			for _, known := range warning.WarningsForLevel(l) {
				_ = w.HandlerWarningCount(h, known)
			}
		}
	}
	for _, t := range w.TestTags() {
		_, _ = w.HasTest(t), w.TestName(t)
		n += queryLevels(w.ForTest(t))
	}
	for _, src := range []string{"", "Bench", "Verify", "Bench:"} {
		_ = w.TestTagsForSource(src)
	}
	for _, l := range warning.LevelOrder {
		for _, known := range warning.WarningsForLevel(l) {
			_ = w.FindWarning(known.Name).HasUsage()
		}
	}
	for _, wd := range w.ByWarning {
		_, _, _, _, _ = wd.Handlers(), wd.Tests(), wd.HasHandlers(), wd.HasTests(), wd.HasUsage()
	}
	return n
}

func genReports(c *kit.C, prefix string) (Source, []byte) {
	src := Source{Source: "Verify", Prefix: prefix}
	var out bytes.Buffer
	for i, name := range rapid.SliceOfNDistinct(rapid.SampledFrom(handlerNames), 1, 3, rapid.ID).Draw(c.T, "handlers") {
		h := genHandler(c, name, fmt.Sprintf("Tag%d", i))
		genSummary(c, &h)
		src.Handlers = append(src.Handlers, h)
		out.WriteString(captured(func() { setupSuite(h) }))
	}
	for _, h := range src.Handlers {
		mgr, _ := h.manager(prefix)
		mgr.ShowWarnings(&out)
		out.WriteString(noise(c, noiseBetween))
	}
	return src, out.Bytes()
}

func genLookup(c *kit.C) map[string]data.HandlerTag {
	if rapid.Bool().Draw(c.T, "nolookup") {
		return nil
	}
	return map[string]data.HandlerTag{handlerNames[0]: "SlogJSON", handlerNames[2]: "", handlerNames[3]: "x/y"}
}

func TestD02_Benchmarks(t *testing.T) {
	kit.Check(t, 6000, 250000, "benchmark output with one to four damages (lost, doubled, moved, halved or repeated lines, cut, inserted or changed bytes, truncation) or text made of fragments and random bytes; "+
		"parsed, its comments parsed as warnings, everything queried; non-trivial: some results or comments are found", func(c *kit.C) {
		text := kit.Given(func() []byte {
			if rapid.IntRange(0, 3).Draw(c.T, "rubble") == 0 {
				return kit.Rubble(c)
			}
			return kit.Spoil(c, genBench(c, true).out.Bytes())
		})
		b, w := data.NewBenchmarks(), data.NewWarnings()
		c.Logf("input: %q", text)
		err := b.ParseBenchmarkData(bytes.NewReader(text))
		n := queryBenchmarks(b)
		c.Class(err != nil, "error")
		_ = w.ParseWarningData(bytes.NewReader(b.WarningText()), "Bench", b.HandlerLookup())
		queryWarnings(w)
		c.Case(n > 0 || b.HasWarningText(), "%q", text)
	})
}

func TestD02_Warnings(t *testing.T) {
	kit.Check(t, 4000, 150000, "verification output with summaries, links and reports, damaged as above, or text made of fragments, parsed with and without known handler names, everything queried; "+
		"non-trivial: some warning is found", func(c *kit.C) {
		text := kit.Given(func() []byte {
			if rapid.IntRange(0, 3).Draw(c.T, "rubble") == 0 {
				return kit.Rubble(c)
			}
			_, text := genReports(c, rapid.SampledFrom([]string{"", "# "}).Draw(c.T, "prefix"))
			return kit.Spoil(c, text)
		})
		c.Logf("input: %q", text)
		w := data.NewWarnings()
		if err := w.ParseWarningData(bytes.NewReader(text), "Verify", genLookup(c)); err != nil {
			c.Class(true, "error")
		}
		c.Case(queryWarnings(w) > 0, "%q", text[:min(len(text), 2000)])
	})
}

func TestD02_Fields(t *testing.T) {
	kit.Check(t, 10000, 600000, "log records damaged as above, or text made of fragments, given to the field counter; non-trivial: some field is counted", func(c *kit.C) {
		text := kit.Given(func() []byte {
			switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
			case 0:
				return kit.Rubble(c)
			case 1:
				n := rapid.IntRange(1, 400).Draw(c.T, "nesting")
				return kit.Spoil(c, []byte("{\"a\":"+strings.Repeat(rapid.SampledFrom([]string{"[", "{\"b\":", "[[{\"fields\":", "{\"fields\":"}).Draw(c.T, "open"), n)))
			}
			return kit.Spoil(c, []byte(genRecord(c)))
		})
		if bytes.Count(text, []byte("[")) > 1000 || bytes.Count(text, []byte("{")) > 1000 {
			return // see DESIGN.md: the counter needs memory quadratic in the nesting of a broken record
		}
		c.Logf("input: %q", text)
		ctr := fields.NewFieldCounter(text)
		err := ctr.Parse()
		c.Class(err != nil, "error")
		_, _, _ = ctr.Fields(), ctr.Duplicates(), ctr.String()
		if err == nil {
			// An object needs its braces.
			if s := bytes.TrimSpace(text); len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
				c.Fatalf("%q is counted as an object", text)
			}
		}
		c.Case(ctr.NumFields() > 0, "%q", text[:min(len(text), 500)])
	})
}

func TestD02_Traffic(t *testing.T) {
	kit.Check(t, 10000, 600000, "Gin traffic lines damaged as above, or text made of fragments, given to the traffic parser, which gives five fields or an error; non-trivial: it parses", func(c *kit.C) {
		text := kit.Given(func() []byte {
			line := []byte(fmt.Sprintf(" %d |%13v |%16s | %-8s %q", rapid.IntRange(100, 599).Draw(c.T, "code"), rapid.SampledFrom([]string{"9.5ms", "1.2s"}).Draw(c.T, "elapsed"),
				rapid.SampledFrom([]string{"::1", "10.0.0.1"}).Draw(c.T, "client"), rapid.SampledFrom([]string{"GET", "DELETE"}).Draw(c.T, "method"), kit.ValidText(c.T, "url")))
			if rapid.IntRange(0, 3).Draw(c.T, "kind") == 0 {
				return kit.Rubble(c)
			}
			return kit.Spoil(c, line)
		})
		c.Logf("input: %q", text)
		args, err := gin.Parse(string(text))
		if (err == nil) != (len(args) == 5) {
			c.Fatalf("%q gives %v and %v", text, args, err)
		}
		c.Case(err == nil, "%q", text)
	})
}

// TestD02_AroundResult: one damaged line does not touch the other results.
func TestD02_AroundResult(t *testing.T) {
	kit.Check(t, 4000, 150000, "benchmark output in which one line is halved, cut, changed or has bytes inserted: all results of other lines must be there unchanged unless parsing reports an error, "+
		"then those before; non-trivial: a result line is damaged and there are others", func(c *kit.C) {
		m := genBench(c, true)
		lines := strings.SplitAfter(m.out.String(), "\n")
		k := rapid.IntRange(0, len(lines)-1).Draw(c.T, "line")
		bad := lines[k]
		if n := len(bad); n > 0 {
			at := rapid.IntRange(0, n-1).Draw(c.T, "at")
			switch rapid.IntRange(0, 3).Draw(c.T, "how") {
			case 0:
				bad = bad[:at]
			case 1:
				bad = bad[:at] + bad[at+rapid.IntRange(0, n-1-at).Draw(c.T, "cut"):]
			case 2:
				bad = bad[:at] + rapid.SampledFrom([]string{"x", "9", " ", "\t", "\x00", "\xff", "-", "/", "Benchmark", "99999999999999999999", "{\"level\":\"INFO\"}"}).Draw(c.T, "in") + bad[at:]
			case 3:
				bad = bad[:at] + string([]byte{rapid.Byte().Draw(c.T, "byte")}) + bad[at+1:]
			}
		}
		if !strings.HasSuffix(bad, "\n") {
			bad += "\n"
		}
		text := strings.Join(lines[:k], "") + bad + strings.Join(lines[k+1:], "")
		c.Logf("input: %s", text)
		dirty := data.NewBenchmarks()
		err := dirty.ParseBenchmarkData(strings.NewReader(text))
		rest := lines[k+1:]
		if err != nil {
			rest = nil
		}
		clean := data.NewBenchmarks()
		if err = clean.ParseBenchmarkData(strings.NewReader(strings.Join(lines[:k], "") + strings.Join(rest, ""))); err != nil {
			c.Fatalf("parsing fails: %v", err)
		}
		for _, h := range clean.HandlerTags() {
			for test, r := range clean.TestRecordsFor(h) {
				if strings.Contains(bad, string(h)) && strings.Contains(bad, strings.TrimPrefix(string(test), "Bench.")) {
					continue // the damaged line may still name this result
				}
				if got, ok := dirty.TestRecordsFor(h)[test]; !ok || got != r {
					c.Fatalf("line %q: the result of %s %s is lost: %v instead of %v", bad, h, test, got, r)
				}
			}
		}
		c.Case(strings.HasPrefix(lines[k], "Benchmark") && m.count() > 1, "%q instead of %q", bad, lines[k])
	})
}

// TestD02_AroundReport: a damaged report or summary does not touch the other reports.
func TestD02_AroundReport(t *testing.T) {
	kit.Check(t, 2000, 40000, "three reports after three summaries, one line of one of them lost, halved, changed or with bytes inserted: the reports of the other handlers must come out unchanged "+
		"(the report just before a damaged heading excepted); non-trivial: another handler has warnings", func(c *kit.C) {
		var blocks [][]string
		var srcs []Handler
		lookup := map[string]data.HandlerTag{}
		exp := newExpected()
		for i, name := range rapid.SliceOfNDistinct(rapid.SampledFrom(handlerNames), 3, 3, rapid.ID).Draw(c.T, "handlers") {
			h := genHandler(c, name, fmt.Sprintf("Tag%d", i))
			genSummary(c, &h)
			lookup[name] = data.HandlerTag(h.Tag)
			srcs = append(srcs, h)
			if out := captured(func() { setupSuite(h) }); out != "" {
				blocks = append(blocks, strings.SplitAfter(strings.TrimSuffix(out, "\n"), "\n"))
			}
		}
		summaries := len(blocks)
		for _, h := range srcs {
			mgr, model := h.manager("")
			exp.add(Source{Source: "Verify"}, h, model)
			var out bytes.Buffer
			mgr.ShowWarnings(&out)
			blocks = append(blocks, strings.SplitAfter(strings.TrimSuffix(out.String(), "\n"), "\n"))
		}
		k := rapid.IntRange(0, len(blocks)-1).Draw(c.T, "block")
		l := rapid.IntRange(0, len(blocks[k])-1).Draw(c.T, "line")
		if k < summaries && rapid.Bool().Draw(c.T, "last") {
			l = len(blocks[k]) - 1
		}
		orig := strings.TrimSuffix(blocks[k][l], "\n")
		bad := orig
		at := rapid.IntRange(0, len(bad)).Draw(c.T, "at")
		how := rapid.IntRange(0, 3).Draw(c.T, "how")
		switch how {
		case 0:
			bad = bad[:at]
		case 1:
			bad = bad[:at] + bad[at+rapid.IntRange(0, len(bad)-at).Draw(c.T, "cut"):]
		case 2:
			bad = bad[:at] + rapid.SampledFrom([]string{"x", "9", " ", "\t", "[", ":", "{", "+"}).Draw(c.T, "in") + bad[at:]
		}
		blocks[k][l] = bad + "\n"
		if how == 3 { // lost
			blocks[k][l] = ""
		}
		var text strings.Builder
		for _, b := range blocks {
			s := strings.Join(b, "")
			text.WriteString(s)
			if !strings.HasSuffix(s, "\n") {
				text.WriteString("\n")
			}
		}
		c.Logf("instead of %q: %q\n%s", orig, bad, clip(text.String()))
		w := data.NewWarnings()
		if err := w.ParseWarningData(strings.NewReader(text.String()), "Verify", lookup); err != nil {
			c.Fatalf("parsing fails: %v", err)
		}
		queryWarnings(w)
		others := 0
		for i, h := range srcs {
			if summaries+i == k || (summaries+i+1 == k && strings.Contains(orig, "Warnings for")) ||
				(strings.Contains(bad, "Warnings") && strings.Contains(bad, h.Name)) || strings.Contains(bad, "Handlers by") {
				continue
			}
			want := exp.handlers[h.Tag]
			levels := w.ForHandler(data.HandlerTag(h.Tag))
			if levels == nil {
				c.Fatalf("the report for %s is lost", h.Name)
			}
			if got := realLevels(levels, false); got != want.String() {
				c.Fatalf("the report for %s has changed: expected\n%s\ngot\n%s", h.Name, want, got)
			}
			others += len(h.Recs)
		}
		c.Class(k < summaries, "in a summary")
		c.Case(others > 0, "%q instead of %q in %s", bad, orig, show([]Source{{Handlers: srcs}}))
	})
}
