package warns

import (
	"errors"
	"fmt"
	"io"
	"log/slog"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if script := os.Getenv("VERIF_WARN_SCRIPT"); script != "" {
		runScript(m, script)
	}
	os.Exit(m.Run())
}

var levels = []warning.Level{warning.LevelAdmin, warning.LevelSuggested, warning.LevelImplied, warning.LevelRequired}

// The warnings that come with the package, by the name of their variable.
var bundled = map[string]*warning.Warning{
	"SkipDedup":         warning.SkipDedup,
	"NoHandlerCreation": warning.NoHandlerCreation,
	"SkippingTest":      warning.SkippingTest,
	"TestError":         warning.TestError,
	"Undefined":         warning.Undefined,
	"Unused":            warning.Unused,
	"Mismatch":          warning.Mismatch,
	"NotDisabled":       warning.NotDisabled,
	"CanceledContext":   warning.CanceledContext,
	"DefaultLevel":      warning.DefaultLevel,
	"GroupAttrMsgTop":   warning.GroupAttrMsgTop,
	"LevelMath":         warning.LevelMath,
	"MessageKey":        warning.MessageKey,
	"NoReplAttr":        warning.NoReplAttr,
	"NoReplAttrBasic":   warning.NoReplAttrBasic,
	"ReplAttrGroup":     warning.ReplAttrGroup,
	"SourceCaller":      warning.SourceCaller,
	"SourceKey":         warning.SourceKey,
	"WithGroup":         warning.WithGroup,
	"EmptyAttributes":   warning.EmptyAttributes,
	"GroupEmpty":        warning.GroupEmpty,
	"GroupInline":       warning.GroupInline,
	"LevelVar":          warning.LevelVar,
	"Resolver":          warning.Resolver,
	"SlogTest":          warning.SlogTest,
	"WithGroupEmpty":    warning.WithGroupEmpty,
	"ZeroPC":            warning.ZeroPC,
	"ZeroTime":          warning.ZeroTime,
	"Duplicates":        warning.Duplicates,
	"DurationMillis":    warning.DurationMillis,
	"DurationSeconds":   warning.DurationSeconds,
	"DurationString":    warning.DurationString,
	"GroupWithTop":      warning.GroupWithTop,
	"GroupDuration":     warning.GroupDuration,
	"LevelCase":         warning.LevelCase,
	"LevelWrong":        warning.LevelWrong,
	"NoEmptyName":       warning.NoEmptyName,
	"NoNilValue":        warning.NoNilValue,
	"StringAny":         warning.StringAny,
	"TimeMillis":        warning.TimeMillis,
	"TimeSeconds":       warning.TimeSeconds,
}

// anyLevel also has levels of a user's own.
var anyLevel = append([]warning.Level{7, 1000}, levels...)

func allListed() map[string]*warning.Warning {
	all := map[string]*warning.Warning{}
	for _, l := range levels {
		for _, w := range warning.WarningsForLevel(l) {
			all[w.Name] = w
		}
	}
	return all
}

// TestW01_Bundled: the warnings of the package are all found and listed, each once.
func TestW01_Bundled(t *testing.T) {
	names := kit.SortedKeys(bundled)
	kit.Enum(t, "every bundled warning listed here; all of them are non-trivial", names, func(f kit.Failer, name string) (bool, string) {
		w := bundled[name]
		if w == nil {
			f.Fatalf("warning %s is nil", name)
		}
		for other, o := range bundled {
			if other != name && (o == w || o.Name == w.Name) {
				f.Fatalf("warnings %s and %s are the same", name, other)
			}
		}
		if warning.ByName(w.Name) != w {
			f.Fatalf("ByName(%q) = %v, expected the warning %s", w.Name, warning.ByName(w.Name), name)
		}
		for _, l := range levels {
			count := 0
			for _, o := range l.Warnings() {
				if o.Name == w.Name {
					count++
				}
			}
			want := 0
			if l == w.Level {
				want = 1
			}
			if count != want {
				f.Fatalf("warning %s of level %s is listed %d times under %s, expected %d", name, w.Level, count, l, want)
			}
		}
		return true, name
	})
}

// TestW01_Lists: the functions for the levels list what is defined at the level.
func TestW01_Lists(t *testing.T) {
	fns := map[string]struct {
		fn    func() []*warning.Warning
		level warning.Level
	}{
		"Administrative": {warning.Administrative, warning.LevelAdmin}, "Suggested": {warning.Suggested, warning.LevelSuggested},
		"Implied": {warning.Implied, warning.LevelImplied}, "Required": {warning.Required, warning.LevelRequired},
	}
	kit.Enum(t, "the listing functions of the four levels; all non-trivial", kit.SortedKeys(fns), func(f kit.Failer, name string) (bool, string) {
		got, want := fns[name].fn(), warning.WarningsForLevel(fns[name].level)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			f.Fatalf("%s lists %v, the level lists %v", name, got, want)
		}
		for i, w := range got {
			if w.Level != fns[name].level {
				f.Fatalf("%s lists %s of level %s", name, w.Name, w.Level)
			}
			if i > 0 && got[i-1].Name >= w.Name {
				f.Fatalf("%s lists %s before %s", name, got[i-1].Name, w.Name)
			}
			if warning.ByName(w.Name) != w {
				f.Fatalf("%s lists %s, which isn't found by name", name, w.Name)
			}
		}
		return len(got) > 0, fmt.Sprintf("%s %d", name, len(got))
	})
}

// TestW01_Levels: the levels are ordered by their importance and summarized.
func TestW01_Levels(t *testing.T) {
	kit.Enum(t, "the levels; all non-trivial", levels, func(f kit.Failer, l warning.Level) (bool, string) {
		at := -1
		for i, o := range warning.LevelOrder {
			if o == l {
				if at >= 0 {
					f.Fatalf("%s comes twice: %v", l, warning.LevelOrder)
				}
				at = i
			}
			if i > 0 && o >= warning.LevelOrder[i-1] {
				f.Fatalf("%s comes after %s", o, warning.LevelOrder[i-1])
			}
		}
		if at < 0 || len(warning.LevelOrder) != len(levels) {
			f.Fatalf("levels are %v, where %s is at %d", warning.LevelOrder, l, at)
		}
		if s := string(l.Summary()); strings.TrimSpace(s) == "" || strings.Contains(s, "^") {
			f.Fatalf("level %s is summarized as %q", l, s)
		}
		return true, l.String()
	})
}

type def struct {
	w       *warning.Warning
	level   warning.Level
	summary string
}

var defined = map[string]def{}
var definedAt = map[warning.Level]int{}
var serial int

func learn() {
	if len(defined) == 0 {
		for _, l := range anyLevel {
			for _, w := range warning.WarningsForLevel(l) {
				defined[w.Name] = def{w, w.Level, w.Summary}
				definedAt[l]++
			}
		}
	}
}

// TestW01_Registry: histories of definitions and look-ups against a map.
func TestW01_Registry(t *testing.T) {
	learn()
	kit.Check(t, 400, 4000, "sequences of up to 14 definitions (new names, names of this sequence, names of the package, any level), listings and look-ups, "+
		"checked against a map of first definitions; non-trivial when a warning is defined after a listing or a name is defined twice",
		func(c *kit.C) {
			var mine []string // names in order of definition
			show := map[string]string{}
			var hist []string
			listed, nontriv := false, false
			checkLevel := func(l warning.Level) {
				got := warning.WarningsForLevel(l)
				if len(got) != definedAt[l] {
					c.Fatalf("after %v: level %s lists a wrong number of warnings: %+d", hist, l, len(got)-definedAt[l])
				}
				if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].Name < got[j].Name }) {
					c.Fatalf("after %v: level %s isn't in name order", hist, l)
				}
				for _, n := range mine {
					d := defined[n]
					i := sort.Search(len(got), func(i int) bool { return got[i].Name >= n })
					found := i < len(got) && got[i] == d.w
					if found != (d.level == l) {
						c.Fatalf("after %v: %s of level %s listed under %s: %v", hist, show[n], d.level, l, found)
					}
				}
			}
			ops := rapid.IntRange(1, 14).Draw(c.T, "ops")
			for i := 0; i < ops; i++ {
				lvl := rapid.SampledFrom(anyLevel).Draw(c.T, "level")
				switch rapid.IntRange(0, 6).Draw(c.T, "op") {
				case 0, 1: // new
					serial++
					prefix := rapid.SampledFrom([]string{"", "A", "M", "a", "zz", "Ω", "Dup", "Level", "~"}).Draw(c.T, "prefix")
					name := fmt.Sprintf("%s%d", prefix, serial)
					sum := kit.ValidText(c.T, "summary")
					w := warning.NewWarning(lvl, name, sum, kit.ValidText(c.T, "desc"))
					show[name] = fmt.Sprintf("%s<%d>", prefix, len(mine))
					hist = append(hist, fmt.Sprintf("define %s %s", lvl, show[name]))
					if w == nil || w.Name != name || w.Level != lvl || w.Summary != sum {
						c.Fatalf("after %v: definition returned %#v", hist, w)
					}
					defined[name] = def{w, lvl, sum}
					definedAt[lvl]++
					mine = append(mine, name)
					nontriv = nontriv || listed
				case 2: // again
					var name string
					if len(mine) > 0 && rapid.Bool().Draw(c.T, "own") {
						name = rapid.SampledFrom(mine).Draw(c.T, "name")
					} else {
						name = rapid.SampledFrom(kit.SortedKeys(bundled)).Draw(c.T, "bundled")
						name = bundled[name].Name
					}
					hist = append(hist, fmt.Sprintf("redefine %s %s", lvl, name))
					d := defined[name]
					w := warning.NewWarning(lvl, name, kit.ValidText(c.T, "summary"), "other")
					if w != d.w || w.Level != d.level || w.Summary != d.summary || w.Name != name {
						c.Fatalf("second definition of %s: got %v, expected %v", show[name], w, d.w)
					}
					nontriv = true
				case 3:
					hist = append(hist, "list "+lvl.String())
					checkLevel(lvl)
					listed = true
				case 4: // unknown
					if w := warning.ByName("no such warning" + kit.PlainText(c.T, "name")); w != nil {
						c.Fatalf("ByName of an unknown name: %v", w)
					}
				case 5: // nearly known
					if len(mine) > 0 {
						name := rapid.SampledFrom(mine).Draw(c.T, "name")
						for _, n := range []string{strings.ToUpper(name), strings.ToLower(name), " " + name, name + " ", name[:len(name)-1]} {
							if _, known := defined[n]; !known && warning.ByName(n) != nil {
								c.Fatalf("after %v: ByName of a name that is nearly that of %s: %v", hist, show[name], warning.ByName(n).Name)
							}
						}
					}
				case 6:
					for _, n := range mine {
						if warning.ByName(n) != defined[n].w {
							c.Fatalf("after %v: ByName of %s: got %v", hist, show[n], warning.ByName(n))
						}
					}
				}
			}
			for _, l := range anyLevel {
				checkLevel(l)
			}
			for _, n := range mine {
				if warning.ByName(n) != defined[n].w {
					c.Fatalf("after %v: ByName of %s: got %v", hist, show[n], warning.ByName(n))
				}
			}
			c.Case(nontriv, "%v", hist)
		})
}

// TestW01_Concurrent: definitions and look-ups at the same time.
func TestW01_Concurrent(t *testing.T) {
	kit.Check(t, 150, 3000, "2-8 goroutines, each with a sequence of up to 12 definitions (of up to 6 new names they share), look-ups and listings, also under the race detector; "+
		"all definitions of a name must give the same warning, look-ups that or (before the definition) nothing, listings must be in order and without repetition, "+
		"and in the end every name is listed once; non-trivial when several goroutines define the same name",
		func(c *kit.C) {
			type op struct {
				kind, name int
				level      warning.Level
			}
			serial++
			var names []string
			for i := rapid.IntRange(1, 6).Draw(c.T, "names"); i > 0; i-- {
				names = append(names, fmt.Sprintf("%sC%d-%d", rapid.SampledFrom([]string{"", "A", "zz", "M"}).Draw(c.T, "prefix"), serial, i))
			}
			scripts := make([][]op, rapid.IntRange(2, 8).Draw(c.T, "goroutines"))
			definers := make([]map[int]bool, len(names))
			for g := range scripts {
				for i := rapid.IntRange(1, 12).Draw(c.T, "ops"); i > 0; i-- {
					o := op{rapid.IntRange(0, 4).Draw(c.T, "op"), rapid.IntRange(0, len(names)-1).Draw(c.T, "name"), rapid.SampledFrom(levels).Draw(c.T, "level")}
					scripts[g] = append(scripts[g], o)
					if o.kind < 2 {
						if definers[o.name] == nil {
							definers[o.name] = map[int]bool{}
						}
						definers[o.name][g] = true
					}
				}
			}
			got := make([]map[int]*warning.Warning, len(scripts))
			bad := make([]string, len(scripts))
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g, script := range scripts {
				wg.Add(1)
				go func() {
					defer wg.Done()
					got[g] = map[int]*warning.Warning{}
					<-start
					for _, o := range script {
						switch o.kind {
						case 0, 1:
							w := warning.NewWarning(o.level, names[o.name], "of "+names[o.name], "description")
							if w == nil || w.Name != names[o.name] || w.Summary != "of "+names[o.name] || got[g][o.name] != nil && got[g][o.name] != w {
								bad[g] = fmt.Sprintf("definition gives %v after %v", w, got[g][o.name])
								return
							}
							got[g][o.name] = w
						case 2:
							w := warning.ByName(names[o.name])
							if first := got[g][o.name]; first != nil && w != first || w != nil && w.Name != names[o.name] {
								bad[g] = fmt.Sprintf("look-up gives %v after %v", w, first)
								return
							}
							if w != nil {
								got[g][o.name] = w
							}
						default:
							list := warning.WarningsForLevel(o.level)
							for i, w := range list {
								if w.Level != o.level || i > 0 && list[i-1].Name >= w.Name {
									bad[g] = fmt.Sprintf("listing of %s contains %s of %s at %d", o.level, w.Name, w.Level, i)
									return
								}
							}
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			shared := false
			for g := range bad {
				if bad[g] != "" {
					c.Fatalf("goroutine %d: %s", g, bad[g])
				}
			}
			for i, name := range names {
				w := warning.ByName(name)
				if (w != nil) != (len(definers[i]) > 0) {
					c.Fatalf("%q is defined %d times and found as %v", name, len(definers[i]), w)
				}
				for g := range got {
					if got[g][i] != nil && got[g][i] != w {
						c.Fatalf("goroutine %d got another warning for name %d than others", g, i)
					}
				}
				listed := 0
				for _, l := range levels {
					for _, o := range warning.WarningsForLevel(l) {
						if o.Name == name {
							listed++
							if o != w || l != w.Level {
								c.Fatalf("name %d is listed at the wrong level or as another warning", i)
							}
						}
					}
				}
				if w != nil && listed != 1 {
					c.Fatalf("name %d is listed %d times", i, listed)
				}
				shared = shared || len(definers[i]) > 1
			}
			c.Case(shared, "%d names, %v", len(names), scripts)
		})
}

// TestW01_Text: level names parse back, errors carry everything.
func TestW01_Text(t *testing.T) {
	kit.Check(t, 1500, 60000, "level names in any mix of cases, other texts, and the error texts of warnings with arbitrary names, summaries and extras; "+
		"non-trivial when the mix differs from the printed name or the extra isn't empty", func(c *kit.C) {
		lvl := rapid.SampledFrom(levels).Draw(c.T, "level")
		name := lvl.String()
		if lvl == warning.LevelAdmin && rapid.Bool().Draw(c.T, "short") {
			name = "Admin"
		}
		mixed := []byte(name)
		for i := range mixed {
			switch rapid.IntRange(0, 2).Draw(c.T, "case") {
			case 0:
				mixed[i] = strings.ToUpper(string(mixed[i]))[0]
			case 1:
				mixed[i] = strings.ToLower(string(mixed[i]))[0]
			}
		}
		if got, err := warning.ParseLevel(string(mixed)); err != nil || got != lvl {
			c.Fatalf("ParseLevel(%q) = %v, %v, expected %v", mixed, got, err, lvl)
		}
		other := kit.ValidText(c.T, "other")
		known := false
		for _, n := range []string{"admin", "administrative", "suggested", "implied", "required"} {
			known = known || strings.EqualFold(n, other)
		}
		if got, err := warning.ParseLevel(other); !known && err == nil {
			c.Fatalf("ParseLevel(%q) = %v", other, got)
		}
		w := &warning.Warning{Level: lvl, Name: kit.ValidText(c.T, "name"), Summary: kit.ValidText(c.T, "summary")}
		extra := kit.ValidText(c.T, "extra")
		text := w.Error()
		err := w.ErrorExtra(extra)
		for _, part := range []string{lvl.String(), w.Name, w.Summary} {
			if !strings.Contains(text, part) {
				c.Fatalf("error %q doesn't contain %q", text, part)
			}
			if !strings.Contains(err.Error(), part) {
				c.Fatalf("error %q doesn't contain %q", err, part)
			}
		}
		if !strings.Contains(err.Error(), extra) || len(err.Error()) < len(text)+len(extra) {
			c.Fatalf("error %q doesn't contain the extra text %q besides %q", err, extra, text)
		}
		joined := errors.Join(errors.New("x"), fmt.Errorf("wrapped: %w", error(w)))
		var back *warning.Warning
		if !errors.As(joined, &back) || back != w {
			c.Fatalf("warning %v isn't found in the wrapped error", w)
		}
		c.Case(string(mixed) != name || extra != "", "%q %q %q", mixed, text, err)
	})
}

// TestW01_Description: common indentation of a description doesn't matter.
func TestW01_Description(t *testing.T) {
	kit.Check(t, 400, 6000, "descriptions of up to 8 lines, defined once as they are and once indented by a common prefix, both compared with the text itself; "+
		"non-trivial with at least two lines that aren't blank", func(c *kit.C) {
		lines := rapid.SliceOfN(rapid.SampledFrom([]string{"", "Some text with ^code^.", "* item", "  * nested", "    indented code", "- \"quoted\"",
			"  [^link^](https://pkg.go.dev/log/slog)", "1. one", "| a | b |", "x", "ü € 😀", "```", "# Title", "<b>"}), 1, 8).Draw(c.T, "lines")
		// some line isn't indented, not always the first
		lines[rapid.IntRange(0, len(lines)-1).Draw(c.T, "at")] = rapid.SampledFrom([]string{"Text.", "* item", "2. two"}).Draw(c.T, "anchor")
		prefix := rapid.SampledFrom([]string{" ", "  ", "\t", "\t\t", "   \t", "            "}).Draw(c.T, "prefix")
		indented := make([]string, len(lines))
		full := 0
		for i, l := range lines {
			indented[i] = prefix + l
			if strings.TrimSpace(l) == "" {
				indented[i] = ""
			} else {
				full++
			}
		}
		serial += 2
		a := warning.NewWarning(warning.LevelAdmin, fmt.Sprintf("desc%d", serial), "", strings.Join(lines, "\n"))
		b := warning.NewWarning(warning.LevelAdmin, fmt.Sprintf("desc%d", serial+1), "", "\n"+strings.Join(indented, "\n"))
		if a.Description() != b.Description() {
			c.Fatalf("description %q reads %q, indented by %q it reads %q", lines, a.Description(), prefix, b.Description())
		}
		if want := markdown.TemplateHTML(strings.Join(lines, "\n")+"\n", true); a.Description() != want {
			c.Fatalf("description %q reads %q, expected %q", lines, a.Description(), want)
		}
		if !a.HasDescription() || !b.HasDescription() {
			c.Fatalf("no description for %q", lines)
		}
		c.Case(full > 1, "%q %q", prefix, lines)
	})
}
