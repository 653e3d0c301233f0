package suites

import (
	"io"
	"log/slog"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"github.com/madkins23/go-slog/verify/tests"
	"github.com/stretchr/testify/suite"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	os.Exit(m.Run())
}

// observed is the suite under test.
type observed struct {
	*tests.SlogTestSuite
	stats *suite.SuiteInformation
}

func (o *observed) HandleStats(_ string, stats *suite.SuiteInformation) { o.stats = stats }

type outcome struct {
	failed   []string
	recorded map[string]bool // without administrative ones
	unused   map[string]bool
	report   string
}

var running sync.Mutex

// verify runs the whole suite against a deviant handler.
func verify(c kit.Failer, dev map[string]bool, declared []*warning.Warning, makesHandler bool) outcome {
	running.Lock()
	defer running.Unlock()
	handlerFn := func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return newDeviant(w, o, dev) }
	loggerFn := func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(handlerFn(w, o)) }
	creator := infra.NewCreator("verif/deviant", nil, loggerFn, "", nil)
	if makesHandler {
		creator = infra.NewCreator("verif/deviant", handlerFn, nil, "Deviant handler.", nil)
	}
	o := &observed{SlogTestSuite: tests.NewSlogTestSuite(creator)}
	for _, w := range declared {
		o.WarnOnly(w)
	}
	stdout := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic("VERIF-HARNESS-ERROR " + err.Error())
	}
	os.Stdout = null
	ok := testing.RunTests(func(string, string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "TestDeviant", F: func(t *testing.T) { suite.Run(t, o) }}})
	os.Stdout = stdout
	_ = null.Close()
	if o.stats == nil || len(o.stats.TestStats) < 30 {
		c.Fatalf("the suite has not run to its end")
	}
	out := outcome{recorded: map[string]bool{}, unused: map[string]bool{}}
	for name, s := range o.stats.TestStats {
		if !s.Passed {
			out.failed = append(out.failed, name)
		}
	}
	sort.Strings(out.failed)
	if ok != (len(out.failed) == 0) {
		c.Fatalf("suite passes: %v, but failed tests are %v", ok, out.failed)
	}
	var report strings.Builder
	o.ShowWarnings(&report)
	out.report = report.String()
	for _, i := range o.GetWarnings() {
		switch {
		case i.Name == warning.Unused.Name:
			for _, d := range i.Data {
				out.unused[d.Text] = true
			}
		case i.Level != warning.LevelAdmin:
			out.recorded[i.Name] = true
			if int(i.Count) != len(i.Data) {
				c.Fatalf("%d warnings %s but %d instances", i.Count, i.Name, len(i.Data))
			}
			for _, d := range i.Data {
				if _, found := o.stats.TestStats[d.Function]; !found {
					c.Fatalf("warning %s is recorded for %q, which is no test", i.Name, d.Function)
				}
			}
		case i.Name == warning.Undefined.Name:
			c.Fatalf("a warning is undefined:\n%s", out.report)
		}
	}
	return out
}

// deviation is one way not to be like the standard handler.
type deviation struct {
	name     string
	warnings []*warning.Warning // that describe it
	slogtest bool               // also found by the standard test
	replace  string             // "": any, "off": only without replacement of basic fields, "none": only without replacement
	excludes string             // deviations with the same word exclude each other
}

var declarable = []deviation{
	{"duplicates", []*warning.Warning{warning.Duplicates}, false, "", ""},
	{"context", []*warning.Warning{warning.CanceledContext}, false, "", ""},
	{"default level", []*warning.Warning{warning.DefaultLevel}, false, "", "level"},
	{"fixed level", []*warning.Warning{warning.LevelVar}, false, "", "level"},
	{"level math", []*warning.Warning{warning.LevelMath}, false, "", "level"},
	{"zero time", []*warning.Warning{warning.ZeroTime}, true, "", ""},
	{"zero pc", []*warning.Warning{warning.ZeroPC}, false, "", "source"},
	{"level case", []*warning.Warning{warning.LevelCase}, false, "off", ""},
	{"message key", []*warning.Warning{warning.MessageKey}, true, "off", ""},
	{"caller", []*warning.Warning{warning.SourceCaller}, false, "off", "source"},
	{"no source", []*warning.Warning{warning.SourceKey}, false, "off", "source"},
	{"source text", []*warning.Warning{warning.SourceKey}, false, "off", "source"},
	{"resolver", []*warning.Warning{warning.Resolver}, true, "", ""},
	{"inline groups", []*warning.Warning{warning.GroupInline}, true, "", ""},
	{"empty open groups", []*warning.Warning{warning.GroupEmpty, warning.WithGroupEmpty}, true, "", ""},
	{"empty attributes", []*warning.Warning{warning.EmptyAttributes}, true, "off", ""},
	{"empty names", []*warning.Warning{warning.NoEmptyName}, false, "off", ""},
	{"map text", []*warning.Warning{warning.StringAny}, false, "", ""},
	{"time millis", []*warning.Warning{warning.TimeMillis}, false, "", "time"},
	{"duration text", []*warning.Warning{warning.DurationString}, false, "", "duration"},
	{"duration seconds", []*warning.Warning{warning.DurationSeconds}, false, "", "duration"},
	{"duration millis", []*warning.Warning{warning.DurationMillis}, false, "", "duration"},
	{"with to top", []*warning.Warning{warning.GroupWithTop, warning.WithGroup}, true, "none", "groups"},
	{"deep attributes", []*warning.Warning{warning.Mismatch}, false, "", "groups"},
	{"replace in groups", []*warning.Warning{warning.ReplAttrGroup}, false, "basic", ""},
}

// No warning describes these.
var undeclarable = []string{"always enabled", "shared derivation", "lost with", "no groups", "lost group attributes", "last attribute", "time format", "level name",
	"escapes", "tabs", "bool text", "unsigned", "uint text", "short floats", "list text"}

func names(ws []*warning.Warning) map[string]bool {
	m := map[string]bool{}
	for _, w := range ws {
		m[w.Name] = true
	}
	return m
}

func list(m map[string]bool) string {
	return strings.Join(kit.SortedKeys(m), " ")
}

const rule = "any of 25 deviations from the behaviour of the standard handler (levels, groups, empty, nil and duplicate attributes, resolving, times, durations, source, replacement) alone and combined; "

// genDeviations chooses deviations that can be told apart, and the warnings describing them.
func genDeviations(c *kit.C, makesHandler bool) (map[string]bool, []*warning.Warning) {
	dev := map[string]bool{}
	var warns []*warning.Warning
	add := func(ws ...*warning.Warning) {
		have := names(warns)
		for _, w := range ws {
			if !have[w.Name] {
				warns = append(warns, w)
			}
		}
	}
	replace := rapid.SampledFrom([]string{"", "", "", "basic", "none"}).Draw(c.T, "replace")
	n := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 4, 6, 9}).Draw(c.T, "deviations")
	excluded := map[string]bool{}
	for _, i := range rapid.SliceOfNDistinct(rapid.IntRange(0, len(declarable)-1), n, n, rapid.ID).Draw(c.T, "chosen") {
		d := declarable[i]
		if d.excludes != "" && excluded[d.excludes] {
			continue
		}
		switch {
		case d.replace == "off" && replace == "":
			replace = rapid.SampledFrom([]string{"basic", "none"}).Draw(c.T, "off")
		case d.replace == "none" && replace != "none":
			if dev["replace in groups"] {
				continue
			}
			replace = "none"
		case d.replace == "basic" && replace == "none":
			continue
		case d.replace == "basic":
			replace = "basic"
		}
		excluded[d.excludes] = true
		dev[d.name] = true
		add(d.warnings...)
		if d.slogtest && makesHandler {
			add(warning.SlogTest)
		}
	}
	switch replace {
	case "basic":
		dev["no basic replace"] = true
		add(warning.NoReplAttrBasic)
	case "none":
		dev["no replace"] = true
		add(warning.NoReplAttr)
	}
	return dev, warns
}

func TestV01_Declared(t *testing.T) {
	kit.Check(t, 1000, 20000, rule+"the warnings describing them declared; the suite must pass and record exactly these warnings; non-trivial: two deviations or more", func(c *kit.C) {
		handler := rapid.Bool().Draw(c.T, "makes handlers")
		dev, warns := genDeviations(c, handler)
		c.Logf("deviations: %s; declared: %s", list(dev), list(names(warns)))
		out := verify(c, dev, warns, handler)
		c.Case(len(dev) > 1, "%s", list(dev))
		if len(out.failed) > 0 {
			c.Fatalf("with deviations %s and warnings %s tests %v fail", list(dev), list(names(warns)), out.failed)
		}
		if got, want := list(out.recorded), list(names(warns)); got != want {
			c.Fatalf("with deviations %s the warnings recorded are %s, expected %s\n%s", list(dev), got, want, out.report)
		}
		if len(out.unused) > 0 {
			c.Fatalf("with deviations %s warnings %s are called unused", list(dev), list(out.unused))
		}
	})
}

func TestV01_Undeclared(t *testing.T) {
	kit.Check(t, 1000, 20000, rule+"and one warning or more left out of the declaration, or a deviation added that no warning describes; some test of the suite must fail, or a warning be recorded that isn't declared; non-trivial: the other warnings of two deviations or more are declared", func(c *kit.C) {
		handler := rapid.Bool().Draw(c.T, "makes handlers")
		dev, warns := genDeviations(c, handler)
		if len(warns) == 0 || rapid.IntRange(0, 3).Draw(c.T, "how") == 0 {
			dev[rapid.SampledFrom(undeclarable).Draw(c.T, "undeclarable")] = true
		} else {
			i := rapid.IntRange(0, len(warns)-1).Draw(c.T, "left out")
			c.Logf("left out: %s", warns[i].Name)
			warns = append(append([]*warning.Warning{}, warns[:i]...), warns[i+1:]...)
		}
		c.Logf("deviations: %s; declared: %s", list(dev), list(names(warns)))
		out := verify(c, dev, warns, handler)
		c.Case(len(dev) > 1 && len(warns) > 0, "%s; declared %s", list(dev), list(names(warns)))
		more := false
		for w := range out.recorded {
			more = more || !names(warns)[w]
		}
		c.Class(more, "undeclared warning recorded")
		if len(out.failed) == 0 && !more {
			c.Fatalf("with deviations %s and only warnings %s the suite passes\n%s", list(dev), list(names(warns)), out.report)
		}
	})
}

// unneeded warnings are reported as unused if nothing calls for them.
var unneeded = []*warning.Warning{warning.GroupInline, warning.LevelVar, warning.ZeroPC, warning.ZeroTime, warning.CanceledContext, warning.LevelMath, warning.SourceCaller, warning.StringAny,
	warning.WithGroup, warning.WithGroupEmpty, warning.NoEmptyName, warning.MessageKey, warning.GroupDuration}

func TestV01_Unneeded(t *testing.T) {
	kit.Check(t, 700, 10000, rule+"the warnings describing them declared and one to four others; the suite must pass, record exactly the warnings describing the deviations and call each of the others unused; "+
		"non-trivial: there is a deviation", func(c *kit.C) {
		handler := rapid.Bool().Draw(c.T, "makes handlers")
		dev, warns := genDeviations(c, handler)
		want, extra := names(warns), map[string]bool{}
		for _, w := range rapid.SliceOfNDistinct(rapid.SampledFrom(unneeded), 1, 4, func(w *warning.Warning) string { return w.Name }).Draw(c.T, "others") {
			if want[w.Name] || overlaps(w, dev) {
				continue
			}
			warns = append(warns, w)
			extra[w.Name] = true
		}
		c.Logf("deviations: %s; declared: %s", list(dev), list(names(warns)))
		out := verify(c, dev, warns, handler)
		c.Case(len(dev) > 0 && len(extra) > 0, "%s; declared %s", list(dev), list(names(warns)))
		if len(out.failed) > 0 {
			c.Fatalf("with deviations %s and warnings %s tests %v fail", list(dev), list(names(warns)), out.failed)
		}
		if got := list(out.recorded); got != list(want) {
			c.Fatalf("with deviations %s and %s declared as well the warnings recorded are %s, expected %s\n%s", list(dev), list(extra), got, list(want), out.report)
		}
		for w := range out.unused {
			// A warning may have been declared as one alternative of two.
			if !extra[w] && w != warning.GroupEmpty.Name {
				c.Fatalf("with deviations %s and %s declared as well %s is called unused", list(dev), list(extra), w)
			}
		}
		for w := range extra {
			if !out.unused[w] {
				c.Fatalf("with deviations %s and %s declared as well %s is not called unused", list(dev), list(extra), w)
			}
		}
	})
}

// overlaps tells whether a deviation keeps the test of another warning from being run to its end.
func overlaps(w *warning.Warning, dev map[string]bool) bool {
	switch w {
	case warning.SourceCaller:
		return dev["no source"] || dev["source text"] || dev["zero pc"]
	case warning.WithGroup, warning.WithGroupEmpty:
		return dev["with to top"] || dev["empty open groups"]
	case warning.GroupDuration:
		return dev["duration text"] || dev["duration seconds"] || dev["duration millis"]
	}
	return false
}

// finding is a combination that is known not to work as it should, see DESIGN.md.
type finding struct {
	dev      string
	declared []*warning.Warning
	failed   string // tests that fail
	recorded string // warnings recorded
}

var findings = []finding{
	{"level case", []*warning.Warning{warning.LevelCase}, "TestReplaceAttrFnMulti", "LevelCase"},
	{"message key", []*warning.Warning{warning.MessageKey, warning.SlogTest}, "TestReplaceAttrBasic TestReplaceAttrFnMulti TestReplaceAttrGroup", "MessageKey SlogTest"},
	{"caller", []*warning.Warning{warning.SourceCaller}, "TestReplaceAttrBasic", "SourceCaller"},
	{"no source", []*warning.Warning{warning.SourceKey}, "TestReplaceAttrBasic", "SourceKey"},
	{"empty attributes", []*warning.Warning{warning.EmptyAttributes, warning.SlogTest}, "TestReplaceAttrFnRemoveTime", "EmptyAttributes SlogTest"},
	{"empty names", []*warning.Warning{warning.NoEmptyName}, "TestReplaceAttrFnRemoveEmptyKey", "NoEmptyName"},
	{"with to top", []*warning.Warning{warning.GroupWithTop, warning.SlogTest, warning.WithGroup}, "TestReplaceAttrFnMulti TestReplaceAttrGroup", "GroupWithTop SlogTest WithGroup"},
	{"replace in groups", []*warning.Warning{warning.ReplAttrGroup}, "TestReplaceAttrFnMulti", "ReplAttrGroup"},
	{"nil values", []*warning.Warning{warning.NoNilValue}, "", ""},
	{"time seconds", []*warning.Warning{warning.TimeSeconds}, "", "TimeMillis"},
	{"", []*warning.Warning{warning.DefaultLevel}, "", "DefaultLevel"},
	{"", []*warning.Warning{warning.SourceKey}, "", "SourceKey"},
	{"", []*warning.Warning{warning.NoReplAttr}, "", "NoReplAttr"},
	{"", []*warning.Warning{warning.NoReplAttrBasic}, "", "NoReplAttrBasic"},
	{"", []*warning.Warning{warning.LevelCase}, "TestReplaceAttrFnLevelCase", ""},
	{"", []*warning.Warning{warning.EmptyAttributes}, "TestReplaceAttr TestReplaceAttrFnRemoveEmptyKey TestReplaceAttrFnRemoveTime", ""},
	{"", []*warning.Warning{warning.NoNilValue}, "TestAttributeNil TestAttributeWithNil", ""},
	{"", []*warning.Warning{warning.Resolver}, "TestComplexCases", "Mismatch"},
	{"", []*warning.Warning{warning.GroupWithTop}, "TestComplexCases", "Mismatch"},
	{"", []*warning.Warning{warning.DurationString}, "TestComplexCases", "Mismatch"},
	{"", []*warning.Warning{warning.DurationSeconds}, "TestComplexCases", "Mismatch"},
	{"", []*warning.Warning{warning.DurationMillis}, "TestComplexCases", "Mismatch"},
}

func TestV01_Findings(t *testing.T) {
	kit.Enum(t, "the combinations of one deviation or none and its warnings for which the suite is known to fail or to record the wrong warnings (see known_findings.txt) must behave as they should or exactly as they are known to; non-trivial: all", findings,
		func(f kit.Failer, k finding) (bool, string) {
			dev, want := map[string]bool{}, ""
			if k.dev != "" {
				dev[k.dev] = true
				want = list(names(k.declared))
			}
			out := verify(f, dev, k.declared, true)
			desc := "deviation " + k.dev + ", declared " + list(names(k.declared))
			failed, recorded := strings.Join(out.failed, " "), list(out.recorded)
			if (failed != "" || recorded != want) && (failed != k.failed || recorded != k.recorded) {
				f.Fatalf("%s: failed tests %s, warnings recorded %s, expected none and %s (or as known %s and %s)", desc, failed, recorded, want, k.failed, k.recorded)
			}
			return true, desc
		})
}
