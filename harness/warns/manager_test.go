package warns

import (
	"bytes"
	"flag"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// functions whose names the manager looks for

type suite struct{}

func ZzAlpha(fn func())            { fn() }
func ZzBeta(fn func())             { func() { fn() }() }
func (s *suite) ZzGamma(fn func()) { helper(fn) }
func helper(fn func())             { fn() }

// deeper calls it from some further calls down.
func deeper(n int, fn func()) {
	if n > 0 {
		deeper(n-1, fn)
		return
	}
	fn()
}

var callers = []struct {
	name string
	call func(fn func())
}{
	{"ZzAlpha", ZzAlpha}, {"ZzBeta", ZzBeta}, {"ZzGamma", (&suite{}).ZzGamma}, {"Unknown", helper},
	{"ZzAlpha", func(fn func()) { ZzBeta(func() { ZzAlpha(fn) }) }},
	{"ZzAlpha", func(fn func()) { ZzAlpha(func() { deeper(2, fn) }) }},
	{"ZzGamma", func(fn func()) { (&suite{}).ZzGamma(func() { deeper(3, fn) }) }},
	{"ZzBeta", func(fn func()) { ZzBeta(func() { deeper(9, fn) }) }},
	{"ZzGamma", func(fn func()) { (&suite{}).ZzGamma(func() { deeper(17, fn) }) }},
	{"ZzAlpha", func(fn func()) { ZzAlpha(func() { deeper(60, fn) }) }},
}

type modelInstance struct{ fn, text, record string }

func (m modelInstance) String() string { return fmt.Sprintf("%s|%q|%q", m.fn, m.text, m.record) }

type modelWarning struct {
	w    *warning.Warning
	data []modelInstance
}

// managerModel is what a manager is to report.
type managerModel struct {
	predefined map[string]bool
	only       map[string]bool
	raised     map[string]*modelWarning
}

func newModel() *managerModel {
	m := &managerModel{predefined: map[string]bool{}, only: map[string]bool{}, raised: map[string]*modelWarning{}}
	for _, w := range append(warningsOf(bundled), custom...) {
		if w.Level == warning.LevelAdmin {
			m.predefined[w.Name] = true
		}
	}
	return m
}

func warningsOf(m map[string]*warning.Warning) (res []*warning.Warning) {
	for _, w := range m {
		res = append(res, w)
	}
	return res
}

func (m *managerModel) add(w *warning.Warning, fn, text, record string) {
	mw := m.raised[w.Name]
	if mw == nil {
		mw = &modelWarning{w: w}
		m.raised[w.Name] = mw
	}
	mw.data = append(mw.data, modelInstance{fn, text, strings.TrimRight(record, "\n")})
}

// result lists what GetWarnings is to return.
func (m *managerModel) result() []*modelWarning {
	var res []*modelWarning
	for name, mw := range m.raised {
		if name == warning.Unused.Name {
			left := &modelWarning{w: mw.w}
			for _, d := range mw.data {
				if m.raised[d.text] == nil {
					left.data = append(left.data, d)
				}
			}
			if len(left.data) == 0 {
				continue
			}
			mw = left
		}
		res = append(res, mw)
	}
	sort.Slice(res, func(i, j int) bool {
		if res[i].w.Level != res[j].w.Level {
			return res[i].w.Level > res[j].w.Level
		}
		return res[i].w.Name < res[j].w.Name
	})
	return res
}

func describe(ws []*modelWarning) string {
	var b strings.Builder
	for _, w := range ws {
		fmt.Fprintf(&b, "%s/%s/%s/%d%v\n", w.w.Level, w.w.Name, w.w.Summary, len(w.data), w.data)
	}
	return b.String()
}

func describeReal(ws []*warning.Instances) string {
	var b strings.Builder
	for _, w := range ws {
		data := make([]modelInstance, len(w.Data))
		for i, d := range w.Data {
			data[i] = modelInstance{d.Function, d.Text, d.Record}
		}
		fmt.Fprintf(&b, "%s/%s/%s/%d%v\n", w.Level, w.Name, w.Summary, w.Count, data)
	}
	return b.String()
}

// custom warnings of a user
var custom = []*warning.Warning{
	warning.NewWarning(warning.LevelRequired, "AaCustom", "Custom warning [with] brackets: and more", ""),
	warning.NewWarning(warning.LevelSuggested, "Zz Custom", "", "no summary"),
	warning.NewWarning(warning.LevelImplied, "None", "Looks like nothing", ""),
	warning.NewWarning(warning.LevelAdmin, "Required", "Named like a level", ""),
}

var pool = append([]*warning.Warning{warning.Unused, warning.SkippingTest, warning.Undefined, warning.TestError, warning.NoHandlerCreation,
	warning.Mismatch, warning.Duplicates, warning.LevelCase, warning.SourceKey, warning.ZeroPC, warning.EmptyAttributes, warning.StringAny}, custom...)

// nearby are names that nearly are those of others.
var nearby = []*warning.Warning{
	warning.NewWarning(warning.LevelRequired, " Mismatch", "begins with a space", ""),
	warning.NewWarning(warning.LevelRequired, "duplicates", "in lower case", ""),
	warning.NewWarning(warning.LevelRequired, "LevelCas", "cut off", ""),
}

func names(ws []*warning.Warning) []string {
	res := make([]string, len(ws))
	for i, w := range ws {
		res[i] = w.Name
	}
	return res
}

var long = kit.Filler(6000)

var records = rapid.SampledFrom([]string{"", "", long, `{"msg":"x"}`, "{\"msg\":\"x\"}\n", "{\"a\":1}\n{\"b\":2}\n", "\n", "plain text\n\n", "  {\"a\":1}"})
var texts = rapid.SampledFrom([]string{"", "", "text", long, long[:70], long[:400], "two\nlines", "\nlead", "Unused", "Mismatch", "Duplicates", "SkippingTest", "a: b: c", "+ plus", "ü"})

// TestW02_Manager: histories of manager calls against the model.
func TestW02_Manager(t *testing.T) {
	kit.Check(t, 4000, 200000, "sequences of up to 20 manager operations (predefine, declare, record in four ways, unused, skip, ask, report) over 19 warnings, some of nearly the same name, "+
		"half of them with warnings turned off for a part; the manager's answers are compared with a model after each question and at the end; "+
		"non-trivial when at least two warnings are recorded", func(c *kit.C) {
		defer func() { _ = flag.Set("useWarnings", "true") }()
		use := true
		all := append(append([]*warning.Warning{}, pool...), nearby...)
		mgr := warning.NewWarningManager("verif/manager", "Zz", rapid.SampledFrom([]string{"", "# "}).Draw(c.T, "prefix"))
		model := newModel()
		var hist []string
		log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		check := func() {
			want, got := describe(model.result()), describeReal(mgr.GetWarnings())
			if want != got {
				c.Fatalf("after %v:\nexpected\n%s\ngot\n%s", hist, want, got)
			}
		}
		ops := rapid.IntRange(1, 20).Draw(c.T, "ops")
		crowdAt, crowd := -1, kit.Size(c.T, "crowd", 40, 20, 50, 110, 270, 1100)
		if crowd > 0 {
			crowdAt = rapid.IntRange(0, ops-1).Draw(c.T, "crowdAt")
		}
		recorded := 0
		for i := 0; i < ops; i++ {
			w := rapid.SampledFrom(all).Draw(c.T, "warning")
			caller := callers[rapid.IntRange(0, len(callers)-1).Draw(c.T, "caller")]
			if i == crowdAt {
				log("%s:%d times AddWarning(%s) and AddUnused", caller.name, crowd, w.Name)
				for j := 0; j < crowd; j++ {
					text := fmt.Sprint("instance ", j)
					caller.call(func() { mgr.AddWarning(w, text, "") })
					model.add(w, caller.name, text, "")
					if j%3 == 0 {
						mgr.AddWarningFnText(warning.Unused, fmt.Sprint("Fn", j), "Mismatch", "")
						model.add(warning.Unused, fmt.Sprint("Fn", j), "Mismatch", "")
					}
				}
			}
			switch rapid.IntRange(0, 13).Draw(c.T, "op") {
			case 0:
				ws := rapid.SliceOfN(rapid.SampledFrom(all), 0, 3).Draw(c.T, "ws")
				log("Predefine%q", names(ws))
				mgr.Predefine(ws...)
				for _, w := range ws {
					model.predefined[w.Name] = true
				}
			case 1, 2:
				log("%s:WarnOnly(%s)", caller.name, w.Name)
				caller.call(func() { mgr.WarnOnly(w) })
				if !model.predefined[w.Name] {
					model.add(warning.Undefined, caller.name, w.Summary, "")
				}
				model.only[w.Name] = true
			case 3:
				rec := records.Draw(c.T, "record")
				log("%s:AddUnused(%s,%q)", caller.name, w.Name, rec)
				caller.call(func() { mgr.AddUnused(w, rec) })
				model.add(warning.Unused, caller.name, w.Name, rec)
			case 4, 5:
				text, rec := texts.Draw(c.T, "text"), records.Draw(c.T, "record")
				log("%s:AddWarning(%s,%q,%q)", caller.name, w.Name, text, rec)
				caller.call(func() { mgr.AddWarning(w, text, rec) })
				model.add(w, caller.name, text, rec)
				recorded++
			case 6:
				rec := records.Draw(c.T, "record")
				log("AddWarningFn(%s,fn,%q)", w.Name, rec)
				mgr.AddWarningFn(w, "fn", rec)
				model.add(w, "fn", "", rec)
				recorded++
			case 7:
				text, rec := texts.Draw(c.T, "text"), records.Draw(c.T, "record")
				log("AddWarningFnText(%s,Other: x,%q,%q)", w.Name, text, rec)
				mgr.AddWarningFnText(w, "Other: x", text, rec)
				model.add(w, "Other: x", text, rec)
				recorded++
			case 8:
				log("%s:SkipTest(%s)", caller.name, w.Name)
				caller.call(func() { mgr.SkipTest(w) })
				model.add(warning.SkippingTest, caller.name, w.Summary, "")
				model.add(w, caller.name, warning.SkippingTest.Summary, "")
			case 9, 10:
				ws := rapid.SliceOfN(rapid.SampledFrom(all), 0, 3).Draw(c.T, "ws")
				log("%s:SkipTestIf%q", caller.name, names(ws))
				want := false
				for _, w := range ws {
					if use && model.only[w.Name] {
						want = true
						model.add(warning.SkippingTest, caller.name, w.Summary, "")
						model.add(w, caller.name, warning.SkippingTest.Summary, "")
						break
					}
				}
				var got bool
				caller.call(func() { got = mgr.SkipTestIf(ws...) })
				if got != want {
					c.Fatalf("after %v: SkipTestIf = %v, expected %v", hist, got, want)
				}
			case 11:
				ws := rapid.SliceOfN(rapid.SampledFrom(all), 0, 4).Draw(c.T, "ws")
				var want []string
				for _, w := range ws {
					only := use && model.only[w.Name]
					if mgr.HasWarning(w) != only {
						c.Fatalf("after %v: HasWarning(%s) = %v", hist, w.Name, !only)
					}
					if only {
						want = append(want, w.Name)
					}
				}
				if got := names(mgr.HasWarnings(ws...)); fmt.Sprint(got) != fmt.Sprint(want) {
					c.Fatalf("after %v: HasWarnings%q = %q, expected %q", hist, names(ws), got, want)
				}
			case 12:
				if rapid.IntRange(0, 2).Draw(c.T, "flag") == 0 {
					use = !use
					_ = flag.Set("useWarnings", fmt.Sprint(use))
					log("useWarnings=%v", use)
					break
				}
				log("Get")
				check()
				check()
			case 13:
				log("Show")
				var a, b bytes.Buffer
				mgr.ShowWarnings(&a)
				mgr.ShowWarnings(&b)
				if a.String() != b.String() {
					c.Fatalf("after %v: shown first as\n%s\nthen as\n%s", hist, a.String(), b.String())
				}
				check()
			}
		}
		check()
		check()
		for _, w := range all {
			if mgr.HasWarning(w) != (use && model.only[w.Name]) {
				c.Fatalf("after %v: HasWarning(%s) = %v", hist, w.Name, mgr.HasWarning(w))
			}
		}
		c.Case(len(model.result()) > 1, "%v", hist)
		c.Class(model.raised[warning.Unused.Name] != nil, "with unused warnings")
		c.Class(recorded > 0, "records warnings")
		c.Class(!use, "warnings turned off")
	})
}
